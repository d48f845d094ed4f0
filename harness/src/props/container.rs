//! C11: what is refused, and how. C19: a mesh against a plain record of what was put into it.
use crate::engine::*;
use crate::io::block_on;
use crate::model::*;
use crate::props::format::*;
use crate::refcodec::*;
use tmf::*;
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        rule: "the file has at least one segment, or is refused",
        assumptions: &["one thing is wrong with a file at a time", "limits are 2^31 bytes and elements, 64 bits per index and 63 bits per other value, 65535 bytes of name and segments per mesh"],
        arms: &[
            Arm::enumerated("gates", c11_gates, GATES, 120_000, 6_000_000),
            Arm::new("versions", c11_versions, 40_000, 2_000_000),
            Arm::new("single", c11_single, 30_000, 1_000_000),
            Arm::enumerated("limits", c11_limits, 11, 11, 200),
        ],
    },
    Prop {
        id: "C19",
        rule: "at least 3 operations changed some mesh",
        assumptions: &[],
        arms: &[
            Arm::new("history", c19_history, 60_000, 3_000_000),
            Arm::new("buffers", c19_buffers, 40_000, 2_000_000),
            Arm::new("long", c19_long, 150, 8_000),
            Arm::new("normalize", c19_normalize, 60_000, 3_000_000),
            Arm::new("convert", c19_convert, 20_000, 500_000),
        ],
    },
];
// ---------------------------------------------------------------------------------------------------- C11
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    NotTmf,
    Newer,
    Unknown(u8),
    Unsupported(u8),
    TooLong,
    Precision(u8),
    Io,
}
fn matches(e: &TMFImportError, w: Want) -> bool {
    match (e, w) {
        (TMFImportError::NotTMFFile, Want::NotTmf) | (TMFImportError::NewerVersionRequired, Want::Newer) | (TMFImportError::SegmentTooLong, Want::TooLong) => true,
        (TMFImportError::CompressionTypeUnknown(c), Want::Unknown(d)) | (TMFImportError::UnsuportedCompressionType(c), Want::Unsupported(d)) | (TMFImportError::InvalidPrecision(c), Want::Precision(d)) => *c == d,
        (TMFImportError::IO(_), Want::Io) => true,
        _ => false,
    }
}
/// Every entry point must refuse the file that way.
fn refused(bytes: &[u8], w: Want) -> Res {
    let e = |how: &str, r: Result<usize, TMFImportError>| match r {
        Ok(n) => Err(format!("{how} gave {n} meshes instead of the error {w:?}")),
        Err(e) if matches(&e, w) => {
            if format!("{e}").is_empty() {
                return Err("the error has no text".to_owned());
            }
            Ok(())
        }
        Err(e) => Err(format!("{how} gave the error {e:?} instead of {w:?}")),
    };
    e("read_tmf", no_panic("read_tmf", || TMFMesh::read_tmf(&mut &bytes[..]).map(|m| m.len()))?)?;
    e("read_tmf_one", no_panic("read_tmf_one", || TMFMesh::read_tmf_one(&mut &bytes[..]).map(|_| 1))?)?;
    e("read_tmf_async", no_panic("read_tmf_async", || block_on(TMFMesh::read_tmf_async(&mut &bytes[..])).map(|m| m.len()))?)?;
    e("read_tmf_one_async", no_panic("read_tmf_one_async", || block_on(TMFMesh::read_tmf_one_async(&mut &bytes[..])).map(|_| 1))?)
}
const GATES: u64 = 9;
/// Where the segment's count and its bits are
fn fields(s: &Seg) -> Option<(usize, Vec<usize>, bool)> {
    let named = |k: usize| k + 1 + s.data[0] as usize;
    Some(match s.ty {
        1 => (0, vec![56, 57, 58], false),
        3 | 9 => (0, vec![8], false),
        5 => (1, vec![0], false),
        2 | 4 | 6 | 10 => (1, vec![0], true),
        15 | 24 => (named(1), vec![named(0)], true),
        16 => (named(0), vec![named(24)], false),
        23 => (named(0), vec![named(8)], false),
        25 => (2, vec![1], true),
        _ => return None,
    })
}
fn pick_seg(s: &mut Src, f: &RFile, known: bool) -> Option<(usize, usize)> {
    let all: Vec<(usize, usize)> = f
        .meshes
        .iter()
        .enumerate()
        .flat_map(|(m, r)| r.segs.iter().enumerate().filter(|(_, g)| !known || fields(g).is_some()).map(move |(k, _)| (m, k)).collect::<Vec<_>>())
        .collect();
    if all.is_empty() {
        None
    } else {
        Some(s.pick(&all))
    }
}
const TWO31: u64 = 1 << 31;
fn c11_gates(s: &mut Src, ctx: &mut Ctx) -> Res {
    let gate = s.draw(GATES - 1);
    let (mut f, _) = gen_rfile(s, &FILE);
    let at = pick_seg(s, &f, gate >= 4 && gate != 8);
    let need = |ctx: &mut Ctx| {
        ctx.label("no segment to change");
        Ok(())
    };
    let name = ["magic", "newer version", "unknown compression", "over-long segment", "unsupported compression", "too many elements", "too high precision", "index out of the type's range", "element count without data"][gate as usize];
    ctx.label(name);
    let (bytes, want) = match gate {
        0 => {
            let mut b = f.encode();
            if s.chance(1, 4) {
                let m = s.pick(&[*b"tmf", *b"Tmf", *b"TMf", *b"FMT", *b"TFM", [0, 0, 0], *b"TM\0", *b"\xEF\xBB\xBF"]);
                b[..3].copy_from_slice(&m);
            } else {
                let k = s.usize(0, 2);
                b[k] ^= s.range(1, 255) as u8;
            }
            (b, Want::NotTmf)
        }
        1 => {
            if s.bool() {
                f.version[2] = 0;
                f.version[3] = s.pick(&[3u16, 4, 255, 256, 65535]);
            } else {
                f.version[2] = s.pick(&[1u16, 2, 256, 65535]);
                f.version[3] = s.pick(&[0u16, 1, 2, 3, 65535]);
            }
            (f.encode(), Want::Newer)
        }
        2 => {
            let Some((m, k)) = at else { return need(ctx) };
            let c = s.range(3, 254) as u8;
            f.meshes[m].segs[k].comp = c;
            (f.encode(), Want::Unknown(c))
        }
        3 => {
            let Some((m, k)) = at else { return need(ctx) };
            // Everything up to the segment, then a header with that length
            let mut g = f.clone();
            g.meshes.truncate(m + 1);
            g.meshes[m].segs.truncate(k + 1);
            let cut = g.meshes[m].segs[k].data.len();
            let head = if f.old() { 9 } else { 5 };
            let rest = f.encode();
            let end = {
                let mut b = g.encode();
                let n = b.len();
                b.truncate(n - cut);
                b.len()
            };
            let mut b = rest;
            // Truncating the lists changed their counts, not where things are
            let pos = end - head;
            let len = if s.bool() { (TWO31 + 1 + s.draw(TWO31)).min(u32::MAX as u64) } else { s.pick(&[TWO31 + 1, TWO31 + 2, u32::MAX as u64, 3 << 30]) };
            if f.old() {
                let len = s.pick(&[len, len, 1 << 32, u64::MAX, (1 << 32) + 5, 1 << 63]);
                b[pos..pos + 8].copy_from_slice(&len.to_le_bytes());
            } else {
                b[pos..pos + 4].copy_from_slice(&(len as u32).to_le_bytes());
            }
            (b, Want::TooLong)
        }
        4 => {
            let Some((m, k)) = at else { return need(ctx) };
            let c = s.pick(&[1u8, 2, 255]);
            f.meshes[m].segs[k].comp = c;
            (f.encode(), Want::Unsupported(c))
        }
        5 => {
            let Some((m, k)) = at else { return need(ctx) };
            let seg = &mut f.meshes[m].segs[k];
            let (c, _, _) = fields(seg).unwrap();
            let n = match s.draw(3) {
                0 => TWO31 + 1 + s.draw(TWO31),
                1 => (1 << s.range(32, 63)) + s.draw(3),
                _ => s.pick(&[TWO31 + 1, TWO31 + 2, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX, u64::MAX - 1]),
            };
            seg.data[c..c + 8].copy_from_slice(&n.to_le_bytes());
            (f.encode(), Want::TooLong)
        }
        6 => {
            let Some((m, k)) = at else { return need(ctx) };
            let seg = &mut f.meshes[m].segs[k];
            let (_, bits, index) = fields(seg).unwrap();
            let at = s.pick(&bits);
            let b = if index { s.pick(&[65u8, 66, 127, 128, 255]) } else { s.pick(&[64u8, 65, 127, 128, 255]) };
            seg.data[at] = b;
            (f.encode(), Want::Precision(b))
        }
        7 => {
            // An index the type of indices can't hold
            let old = f.old();
            let m = if f.meshes.is_empty() {
                return need(ctx);
            } else {
                s.usize(0, f.meshes.len() - 1)
            };
            let bits = s.range(34, 64) as u8;
            let mut q: Vec<u64> = s.array(7, |s, _| s.draw(100));
            q.truncate(s.usize(1, 7));
            let k = s.usize(0, q.len() - 1);
            let over = (I::MAX as u64).wrapping_add(1);
            if over == 0 {
                return need(ctx);
            }
            q[k] = (over + s.pick(&[0u64, 1, 5, over, over.wrapping_mul(3).max(over)])).min(((1u128 << bits) - 1) as u64).max(over);
            let mut t = Tri { bits, min: 0, q };
            if !old && s.bool() {
                // Only with the smallest index added is it too big
                t.q = vec![1, 0, 3];
                t.min = over - s.range(1, 3);
                if s.bool() {
                    t.bits = s.range(2, 8) as u8;
                }
            }
            let n = b"n".to_vec();
            let p = match s.draw(6) {
                0 => Payload::VTri(t),
                1 => Payload::NTri(t),
                2 => Payload::UvTri(t),
                3 => Payload::TanTri(t),
                4 => Payload::CIndex(n, t),
                5 => Payload::CInt(n, t),
                _ => Payload::Shared(7, t),
            };
            f.meshes[m].segs.push(encode_payload(&p, 0, old));
            (f.encode(), Want::Io)
        }
        _ => {
            let Some((m, k)) = at else { return need(ctx) };
            let old = f.old();
            let seg = &mut f.meshes[m].segs[k];
            if let Some((c, bits, _)) = fields(seg) {
                if bits.iter().all(|b| seg.data[*b] == 0) && !matches!(seg.ty, 3 | 9) {
                    ctx.label("needs no data");
                    return Ok(());
                }
                let n = u64::from_le_bytes(seg.data[c..c + 8].try_into().unwrap());
                let more = s.pick(&[64u64, 1000, TWO31 - n, 100_000_000]);
                seg.data[c..c + 8].copy_from_slice(&(n + more).to_le_bytes());
                let _ = old;
                (f.encode(), Want::Io)
            } else {
                return need(ctx);
            }
        }
    };
    ctx.describe(|| format!("{name}: {} bytes {}", bytes.len(), bytes.iter().take(4000).map(|b| format!("{b:02x}")).collect::<String>()));
    ctx.nontrivial_if(true);
    refused(&bytes, want)
}
/// Whoever wrote a file, it is read alike as long as it does not require a newer reader.
fn c11_versions(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut f, want) = gen_rfile(s, &FILE);
    f.version[0] = s.draw(65535) as u16;
    f.version[1] = s.draw(65535) as u16;
    if !f.old() && s.bool() {
        f.version[0] = s.pick(&[0u16, 0, 1, 65535]);
        f.version[1] = s.pick(&[0u16, 1, 2, 3, 255, 256, 65535]);
    }
    // Compression the reader does not know of matters only where data is used
    let mut odd = false;
    for m in &mut f.meshes {
        for g in &mut m.segs {
            if fields(g).is_none() && s.bool() {
                g.comp = s.pick(&[1u8, 2, 255, 0]);
                odd |= g.comp != 0;
            }
        }
    }
    ctx.label_if(odd, "compressed unknown segment");
    ctx.describe(|| brief_file(&f));
    ctx.nontrivial_if(f.meshes.iter().any(|m| !m.segs.is_empty()));
    compare_reader(&f.encode(), &want, 40)
}
fn c11_single(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.pick(&[0usize, 1, 1, 2, 2, 3, 5]);
    let o = Opts { max_elems: 6, max_indices: 9, ..Opts::default() };
    let meshes: Vec<(Md, String)> = (0..n).map(|_| (gen_mesh(s, &o), gen_name(s))).collect();
    ctx.describe(|| brief_meshes(&meshes));
    ctx.nontrivial_if(n > 0);
    ctx.label(["no mesh", "one mesh", "several meshes"][n.min(2)]);
    let spec = Spec::default_spec();
    let bytes = write(&meshes, &spec)?;
    if n == 1 {
        let mut o = Vec::new();
        meshes[0].0.to_tmf().write_tmf_one(&mut o, &spec.to_tmf(), meshes[0].1.as_str()).map_err(|e| format!("write_tmf_one: {e}"))?;
        if o != bytes {
            return Err("write_tmf_one and write_tmf write different files".to_owned());
        }
    }
    let all = read(&bytes)?;
    if all.len() != n {
        return Err(format!("{n} meshes became {}", all.len()));
    }
    for (how, r) in [("read_tmf_one", TMFMesh::read_tmf_one(&mut &bytes[..])), ("read_tmf_one_async", block_on(TMFMesh::read_tmf_one_async(&mut &bytes[..])))] {
        match (n, r) {
            (0, Err(TMFImportError::NoMeshes)) => (),
            (1, Ok((m, name))) => {
                let names = meshes[0].0.names();
                if name != meshes[0].1 || Md::from_tmf(&m, &names) != Md::from_tmf(&all[0].0, &names) {
                    return Err(format!("{how} gives another mesh than read_tmf"));
                }
            }
            (2.., Err(TMFImportError::TooManyMeshes)) => (),
            (_, Ok(_)) => return Err(format!("{how} gives a mesh from a file of {n}")),
            (_, Err(e)) => return Err(format!("{how} of a file of {n} meshes gives the error {e:?}")),
        }
    }
    Ok(())
}
/// Names and numbers of segments around what the format holds.
fn c11_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    let which = s.draw(10);
    let spec = Spec::default_spec();
    let mut m = Md { v: Some(vec![(1.0, 2.0, 3.0)]), ..Md::default() };
    let mut name = "m".to_owned();
    let ok;
    match which {
        0..=5 => {
            let n = [65_534usize, 65_535, 65_536, 65_537, 131_072, 70_000][which as usize];
            ok = n <= 65_535;
            // Bytes count, not characters
            name = if s.bool() { "n".repeat(n) } else { "é".repeat(n / 2) + &"n".repeat(n % 2) };
            ctx.label("name");
        }
        _ => {
            // The vertices take a segment as well
            let n = [65_534, 65_535, 65_535, 65_536, 70_000][which as usize - 6];
            if which >= 8 {
                m.v = None;
            }
            let segs = n + usize::from(m.v.is_some());
            ok = segs <= 65_535;
            m.custom = (0..n).map(|k| (format!("{k}"), Cd::Int(vec![], 0))).collect();
            ctx.label("segments");
        }
    }
    ctx.describe(|| format!("name of {} bytes, {} custom arrays", name.len(), m.custom.len()));
    ctx.nontrivial_if(true);
    let t = m.to_tmf();
    let mut out = Vec::new();
    let r = no_panic("writing", || TMFMesh::write_tmf(&[(t.clone(), name.as_str())], &mut out, &spec.to_tmf()))?;
    let mut one = Vec::new();
    let r1 = no_panic("writing", || t.write_tmf_one(&mut one, &spec.to_tmf(), name.as_str()))?;
    match (ok, r, r1) {
        (true, Ok(()), Ok(())) => {
            if one != out {
                return Err("write_tmf_one and write_tmf write different files".to_owned());
            }
            let l = read(&out)?;
            if l.len() != 1 || l[0].1 != name {
                return Err("the name or number of meshes changed".to_owned());
            }
            let b = Md::from_tmf(&l[0].0, &["0", "65533", "65534"]);
            same_structure(&Md { custom: vec![], ..m.clone() }, &Md { custom: vec![], ..b.clone() })?;
            if which >= 6 && b.custom.len() != 2 + usize::from(which == 8) {
                return Err("custom data is missing".to_owned());
            }
            Ok(())
        }
        (false, Err(_), Err(_)) => Ok(()),
        (true, ..) => Err("a mesh the format can hold is refused".to_owned()),
        _ => Err("a mesh the format can't hold is saved without an error".to_owned()),
    }
}
// ---------------------------------------------------------------------------------------------------- C19
/// A mesh and what it must contain.
struct Pair {
    m: TMFMesh,
    r: Md,
}
fn bits3(p: &V3) -> [u64; 3] {
    [(p.0 as f64).to_bits(), (p.1 as f64).to_bits(), (p.2 as f64).to_bits()]
}
/// Debug text of a mesh is compared, so that NaNs and negative zeros count.
fn text(m: &Md) -> String {
    format!("{m:?}")
}
fn any_f(s: &mut Src) -> F {
    match s.draw(11) {
        0 => F::NAN,
        1 => F::INFINITY,
        2 => -0.0,
        3 => F::MIN_POSITIVE,
        4 => -F::MAX,
        _ => f(s.signed() * 10.0),
    }
}
fn any_v3(s: &mut Src) -> Vec<V3> {
    let n = s.usize(0, 5);
    s.array(n, |s, _| (any_f(s), any_f(s), any_f(s)))
}
fn any_t(s: &mut Src) -> Vec<(V3, F)> {
    any_v3(s).into_iter().map(|p| (p, if s.bool() { 1.0 } else { -1.0 })).collect()
}
fn any_v2(s: &mut Src) -> Vec<V2> {
    let n = s.usize(0, 5);
    s.array(n, |s, _| (any_f(s), any_f(s)))
}
fn any_i(s: &mut Src) -> Vec<I> {
    let n = s.usize(0, 7);
    s.array(n, |s, _| if s.chance(1, 10) { I::MAX } else { s.draw(6) as I })
}
fn any_cd(s: &mut Src) -> Cd {
    match s.draw(3) {
        0 => Cd::Index(any_i(s), s.draw(10) as usize),
        1 => Cd::Int(any_i(s), s.draw(10) as usize),
        2 => {
            let n = s.usize(0, 4);
            Cd::Float(s.array(n, |s, _| any_f(s)), 0.5)
        }
        _ => {
            let n = s.usize(0, 4);
            Cd::Rgba(s.array(n, |s, _| (any_f(s), any_f(s), any_f(s), any_f(s))), 0.25)
        }
    }
}
fn replaced<T: std::fmt::Debug>(what: &str, old: Option<Vec<T>>, model: Option<Vec<T>>) -> Res {
    if format!("{old:?}") == format!("{model:?}") {
        Ok(())
    } else {
        Err(format!("{what} returned {old:?} instead of the previous array {model:?}"))
    }
}
/// Normalised *b* of *a*: None if it is fine
fn normalised(a: V3, b: V3) -> Option<String> {
    let finite = a.0.is_finite() && a.1.is_finite() && a.2.is_finite();
    let most = (a.0.abs() as f64).max(a.1.abs() as f64).max(a.2.abs() as f64);
    if !finite || most == 0.0 {
        // Nothing is promised but that it is no worse than not a number
        return None;
    }
    // Squares of very big and very small numbers could not be represented
    let u = (a.0 as f64 / most, a.1 as f64 / most, a.2 as f64 / most);
    let len = (u.0 * u.0 + u.1 * u.1 + u.2 * u.2).sqrt();
    let l = len3(b);
    if (l - 1.0).abs() > 1e-5 {
        return Some(format!("{a:?} became {b:?} of length {l}"));
    }
    let (dx, dy, dz) = (u.0 / len - b.0 as f64, u.1 / len - b.1 as f64, u.2 / len - b.2 as f64);
    let d = (dx * dx + dy * dy + dz * dz).sqrt();
    if d > 1e-5 {
        return Some(format!("{a:?} became {b:?}, another direction (off by {d})"));
    }
    None
}
fn buffer<T: Copy>(d: &Option<Vec<T>>, t: &Option<Vec<I>>) -> Option<Vec<T>> {
    let (d, t) = (d.as_ref()?, t.as_ref()?);
    t.iter().map(|i| d.get(usize::try_from(*i).ok()?).copied()).collect()
}
fn check_buffers(p: &Pair) -> Res {
    fn same<T: std::fmt::Debug>(what: &str, got: Option<Box<[T]>>, want: Option<Vec<T>>) -> Res {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        if g == w {
            Ok(())
        } else {
            Err(format!("the {what} buffer is {g} instead of {w}"))
        }
    }
    same("vertex", p.m.get_vertex_buffer(), buffer(&p.r.v, &p.r.vt))?;
    same("normal", p.m.get_normal_buffer(), buffer(&p.r.n, &p.r.nt))?;
    same("UV", p.m.get_uv_buffer(), buffer(&p.r.uv, &p.r.uvt))
}
const CNAMES: [&str; 5] = ["a", "b", "A", "ab", "c"];
fn check_pair(k: usize, p: &Pair) -> Res {
    let e = |e: String| format!("mesh {k}: {e}");
    let got = Md::from_tmf::<&str>(&p.m, &[]);
    let (g, w) = (text(&got), text(&Md { custom: vec![], ..p.r.clone() }));
    if g != w {
        return Err(e(format!("the getters give {g} instead of {w}")));
    }
    for n in CNAMES {
        let want = p.r.custom.iter().find(|c| c.0 == n).map(|c| format!("{:?}", c.1));
        let got = p.m.lookup_custom_data(n).map(|d| format!("{:?}", Cd::from_tmf(d)));
        if got != want {
            return Err(e(format!("custom data {n:?} is {got:?} instead of {want:?}")));
        }
    }
    check_buffers(p).map_err(e)
}
fn step(s: &mut Src, pairs: &mut Vec<Pair>, log: &mut Vec<String>) -> Result<bool, String> {
    let op = s.draw(21);
    let k = s.usize(0, pairs.len() - 1);
    macro_rules! set {
        ($f:ident, $set:ident, $gen:ident) => {{
            let mut a = $gen(s);
            if s.chance(1, 8) {
                // The same again, or almost
                a = pairs[k].r.$f.clone().unwrap_or(a);
                if s.bool() {
                    a.pop();
                }
            }
            log.push(format!("{k}.{}({a:?})", stringify!($set)));
            // Different sources of the same data
            let old = match s.draw(2) {
                0 => pairs[k].m.$set(a.clone()),
                1 => pairs[k].m.$set(&a[..]),
                _ => pairs[k].m.$set(a.clone().into_boxed_slice()),
            };
            let model = pairs[k].r.$f.replace(a);
            replaced(stringify!($set), old, model)?;
        }};
    }
    macro_rules! app {
        ($f:ident, $app:ident, $gen:ident) => {{
            let mut a = $gen(s);
            if s.chance(1, 5) {
                // The same as what is already at the end
                a = pairs[k].r.$f.clone().unwrap_or_default();
                if a.len() > 60 || !s.chance(1, 3) {
                    let from = s.usize(a.len().saturating_sub(5), a.len());
                    a.drain(..from);
                }
            }
            log.push(format!("{k}.{}({a:?})", stringify!($app)));
            pairs[k].m.$app(&a);
            pairs[k].r.$f.get_or_insert_with(Vec::new).extend(a);
        }};
    }
    match op {
        0 => set!(v, set_vertices, any_v3),
        1 => set!(n, set_normals, any_v3),
        2 => set!(uv, set_uvs, any_v2),
        3 => set!(t, set_tangents, any_t),
        4 => set!(vt, set_vertex_triangles, any_i),
        5 => set!(nt, set_normal_triangles, any_i),
        6 => set!(uvt, set_uv_triangles, any_i),
        7 => set!(tt, set_tangent_triangles, any_i),
        8 => app!(v, append_vertices, any_v3),
        9 => app!(n, append_normals, any_v3),
        10 => app!(uv, append_uvs, any_v2),
        11 => app!(t, append_tangents, any_t),
        12 => app!(vt, append_vertex_triangles, any_i),
        13 => app!(nt, append_normal_triangles, any_i),
        14 => app!(uvt, append_uv_triangles, any_i),
        15 => app!(tt, append_tangent_triangles, any_i),
        16 | 17 => {
            let d = any_cd(s);
            let bad = s.chance(1, 6);
            let name = if bad { s.pick(&[String::new(), "x".repeat(256), "é".repeat(128), "y".repeat(1000)]) } else { s.pick(&CNAMES).to_owned() };
            log.push(format!("{k}.add_custom_data({:.20}, {d:?})", name));
            let r = no_panic("add_custom_data", || pairs[k].m.add_custom_data(d.to_tmf(), &name))?;
            match (bad, r) {
                (false, Ok(())) => pairs[k].r.custom.push((name, d)),
                (true, Err(DataSegmentError::NoName)) if name.is_empty() => (),
                (true, Err(DataSegmentError::NameTooLong)) if !name.is_empty() => (),
                (_, r) => return Err(format!("adding custom data under a name of {} bytes gave {r:?}", name.len())),
            }
        }
        18 | 19 => {
            log.push(format!("{k}.normalize()"));
            pairs[k].m.normalize();
            let now = pairs[k].m.get_normals().map(|a| a.to_vec());
            match (&pairs[k].r.n, &now) {
                (None, None) => (),
                (Some(a), Some(b)) if a.len() == b.len() => {
                    if let Some(e) = a.iter().zip(b).find_map(|(a, b)| normalised(*a, *b)) {
                        return Err(format!("normalize: {e}"));
                    }
                }
                _ => return Err("normalize changed the number of normals".to_owned()),
            }
            pairs[k].r.n = now;
        }
        20 => {
            log.push(format!("clone of {k}"));
            let (m, r) = (pairs[k].m.clone(), pairs[k].r.clone());
            if pairs.len() < 4 {
                pairs.push(Pair { m, r });
            } else {
                let j = s.usize(0, pairs.len() - 1);
                pairs[j] = Pair { m, r };
            }
        }
        _ => {
            log.push("new".to_owned());
            let m = if s.bool() { TMFMesh::empty() } else { TMFMesh::default() };
            if pairs.len() < 4 {
                pairs.push(Pair { m, r: Md::default() });
            }
            return Ok(false);
        }
    }
    Ok(true)
}
pub fn c19_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pairs = vec![Pair { m: TMFMesh::empty(), r: Md::default() }];
    let n = s.usize(1, 24);
    let mut changes = 0;
    let mut log = Vec::new();
    for _ in 0..n {
        let r = step(s, &mut pairs, &mut log);
        let r = r.and_then(|c| {
            changes += c as u64;
            pairs.iter().enumerate().try_for_each(|(k, p)| check_pair(k, p))
        });
        if let Err(e) = r {
            ctx.describe(|| log.join("; "));
            return Err(e);
        }
    }
    ctx.count("operations", n as u64);
    ctx.nontrivial_if(changes >= 3);
    ctx.describe(|| log.join("; "));
    Ok(())
}
pub fn c19_buffers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = gen_mesh(s, &Opts { max_elems: 40, max_indices: 60, custom: false, ..Opts::default() });
    // Sometimes an index is out of range
    for (t, n) in [(&mut m.vt, m.v.as_ref().map_or(0, |a| a.len())), (&mut m.nt, m.n.as_ref().map_or(0, |a| a.len())), (&mut m.uvt, m.uv.as_ref().map_or(0, |a| a.len()))] {
        if let Some(t) = t {
            if !t.is_empty() && s.chance(1, 6) {
                let k = s.pick(&[0, t.len() - 1, t.len() / 2]);
                t[k] = s.pick(&[n as u64, n as u64 + 1, I::MAX as u64]).min(I::MAX as u64) as I;
            }
        }
    }
    match s.draw(11) {
        0 => m.v = None,
        1 => m.n = None,
        2 => m.uv = None,
        _ => (),
    }
    ctx.describe(|| m.brief());
    ctx.nontrivial_if([&m.vt, &m.nt, &m.uvt].iter().any(|t| t.as_ref().map_or(false, |t| !t.is_empty())));
    check_buffers(&Pair { m: m.to_tmf(), r: m })
}
/// More elements than 16 bits count: buffers, and appending to long arrays.
pub fn c19_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut r = gen_long_mesh(s, false);
    let mut m = r.to_tmf();
    ctx.describe(|| r.brief());
    ctx.nontrivial_if([&r.vt, &r.nt, &r.uvt].iter().any(|t| t.as_ref().map_or(false, |t| !t.is_empty())));
    if s.bool() {
        let b = gen_long_mesh(s, false);
        macro_rules! app {
            ($f:ident, $a:ident) => {
                if let Some(b) = &b.$f {
                    m.$a(b);
                    r.$f.get_or_insert_with(Vec::new).extend(b.iter().copied());
                }
            };
        }
        app!(v, append_vertices);
        app!(n, append_normals);
        app!(uv, append_uvs);
        app!(t, append_tangents);
        app!(vt, append_vertex_triangles);
        app!(nt, append_normal_triangles);
        app!(uvt, append_uv_triangles);
        app!(tt, append_tangent_triangles);
        if Md::from_tmf::<&str>(&m, &[]) != r {
            return Err("the getters do not give what was set and appended".to_owned());
        }
    }
    fn same<T: PartialEq>(what: &str, got: Option<Box<[T]>>, want: Option<Vec<T>>) -> Res {
        if got.as_deref() == want.as_deref() {
            Ok(())
        } else {
            Err(format!("the {what} buffer differs from the elements of the indices"))
        }
    }
    same("vertex", m.get_vertex_buffer(), buffer(&r.v, &r.vt))?;
    same("normal", m.get_normal_buffer(), buffer(&r.n, &r.nt))?;
    same("UV", m.get_uv_buffer(), buffer(&r.uv, &r.uvt))
}
pub fn c19_normalize(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 6);
    let a: Vec<V3> = s.array(n, |s, _| {
        let d = gen_normal(s);
        let e = match s.draw(5) {
            0 => s.pick(&[1.0, 2.0, 0.5, 1000.0]),
            1 => 10f64.powi(s.range(0, 76) as i32 - 38),
            2 => s.pick(&[1e-45, 1e-40, 1e-38, 1e-30, 1e-23, 1e-20, 1e19, 1e20, 1e25, 3e38, 1.5e38]),
            3 => 1.0 + s.signed() * 0.002,
            _ => s.unit() * 100.0,
        };
        // As far as the float type goes
        let e = if std::mem::size_of::<F>() == 8 && s.chance(1, 4) { (e * s.pick(&[1e-300, 1e-160, 1e-110, 1e110, 1e160, 1e300])).min(F::MAX as f64) } else { e };
        let c = |x: F| f((x as f64 * e).clamp(F::MIN as f64, F::MAX as f64));
        (c(d.0), c(d.1), c(d.2))
    });
    ctx.describe(|| format!("{a:?}"));
    ctx.nontrivial_if(a.iter().any(|p| (len3(*p) - 1.0).abs() > 0.001 && *p != (0.0, 0.0, 0.0)));
    let mut m = TMFMesh::empty();
    m.set_normals(a.clone());
    m.set_vertices(a.clone());
    m.normalize();
    if m.get_vertices().unwrap() != &a[..] {
        return Err("normalising normals changed vertices".to_owned());
    }
    let b = m.get_normals().ok_or("the normals are gone")?.to_vec();
    if b.len() != a.len() {
        return Err(format!("{} normals became {}", a.len(), b.len()));
    }
    if let Some(e) = a.iter().zip(&b).find_map(|(a, b)| normalised(*a, *b)) {
        return Err(e);
    }
    // What is normalised verifies, unless some normal has no direction
    if a.iter().all(|p| *p != (0.0, 0.0, 0.0)) {
        m.verify().map_err(|e| format!("normalised normals do not verify: {e}"))?;
    }
    // And normalising again moves nothing
    m.normalize();
    for (x, y) in b.iter().zip(m.get_normals().unwrap()) {
        if dist(*x, *y) > 1e-6 {
            return Err(format!("normalising {x:?} again gives {y:?}"));
        }
    }
    let _ = bits3;
    Ok(())
}
/// Conversions into custom data keep the data and state a maximum and precision that are good enough.
fn c19_convert(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.draw(2) {
        0 => {
            let n = gen_count(s, 40);
            let a = gen_ints(s, n);
            ctx.describe(|| format!("{a:?}"));
            ctx.nontrivial_if(a.len() > 1);
            let d: CustomData = (&a[..]).into();
            match Cd::from_tmf(&d) {
                Cd::Index(b, m) if b == a && m >= a.iter().copied().max().unwrap_or(0) as usize => Ok(()),
                d => Err(format!("{a:?} became {d:?}")),
            }
        }
        1 => {
            let n = gen_count(s, 40);
            let a: Vec<F> = s.array(n, |s, _| f(s.signed() * 100.0));
            ctx.describe(|| format!("{a:?}"));
            ctx.nontrivial_if(a.len() > 1);
            let d: CustomData = (&a[..]).into();
            match Cd::from_tmf(&d) {
                Cd::Float(b, p) if b == a && p > 0.0 && p <= 0.01 => Ok(()),
                d => Err(format!("{a:?} became {d:?}")),
            }
        }
        _ => {
            let n = gen_count(s, 40);
            let a: Vec<V4> = s.array(n, |s, _| (gen_uv(s), gen_uv(s), gen_uv(s), gen_uv(s)));
            ctx.describe(|| format!("{a:?}"));
            ctx.nontrivial_if(a.len() > 1);
            let d: CustomData = (&a[..]).into();
            match Cd::from_tmf(&d) {
                Cd::Rgba(b, p) if b == a && p > 0.0 && p <= 0.01 => Ok(()),
                d => Err(format!("{a:?} became {d:?}")),
            }
        }
    }
}
