//! C08-C10: damaged files, cut files, and faulty sources and sinks.
use crate::alloc::measure;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::props::format::*;
use crate::props::obj;
use crate::refcodec::*;
use std::io::ErrorKind;
use tmf::*;
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C08",
        rule: "the bytes begin like a TMF file of a version that is read",
        assumptions: &[
            "files declaring over 500000 elements of zero bits each are left out, as the format gives those no bound",
            "allowed memory is 32 MB + 1024 times the bytes supplied + 128 bytes per element of zero bits (measured in the default build, where reading stays on one thread)",
        ],
        arms: &[
            Arm::new("random", c08_random, 40_000, 1_000_000),
            Arm::new("mutated", c08_mutated, 120_000, 6_000_000),
            Arm::new("structured", c08_structured, 120_000, 6_000_000),
        ],
    },
    Prop {
        id: "C09",
        rule: "a file with at least one segment was cut, shortened or followed by others",
        assumptions: &["segments of unknown type have no inner structure that could be cut"],
        arms: &[
            Arm::new("prefixes", c09_prefixes, 4000, 200_000),
            Arm::new("prefixes_long", c09_prefixes_long, 24, 1200),
            Arm::new("shortened", c09_shortened, 40_000, 2_000_000),
            Arm::new("stream", c09_stream, 20_000, 1_000_000),
        ],
    },
    Prop {
        id: "C10",
        rule: "a fault was injected before the end, or the file took several calls",
        assumptions: &["a source or sink reports Interrupted at most once in a row", "after a failed write only what the sink accepted is compared"],
        arms: &[
            Arm::new("tmf_sink", c10_tmf_sink, 3000, 150_000),
            Arm::new("tmf_source", c10_tmf_source, 3000, 150_000),
            Arm::new("obj_sink", c10_obj_sink, 2000, 100_000),
            Arm::new("obj_source", c10_obj_source, 2000, 100_000),
            Arm::new("obj_big", c10_obj_big, 40, 2000),
            Arm::new("tmf_big", c10_tmf_big, 24, 1200),
            Arm::new("legal", c10_legal, 12_000, 600_000),
        ],
    },
];
/// A well-formed file: written by the library, or by the independent encoder.
fn valid_file(s: &mut Src, big: usize) -> Vec<u8> {
    if s.bool() {
        let meshes = gen_meshes(s, &Opts { max_elems: big, max_indices: big * 2, ..Opts::default() }, 3);
        write(&meshes, &gen_spec(s)).expect("a valid mesh")
    } else {
        gen_rfile(s, &FileOpts { max_len: big, ..FILE }).0.encode()
    }
}
// ---------------------------------------------------------------------------------------------------- C08
/// Number of elements of zero bits the file declares, as far as it can be followed.
pub fn zero_width(b: &[u8]) -> u64 {
    let mut total = 0u64;
    let mut walk = || -> Option<()> {
        let mut r = Rd { b, pos: 3 };
        if b.len() < 3 {
            return None;
        }
        let v = [r.u16()?, r.u16()?, r.u16()?, r.u16()?];
        let old = v[3] <= 1;
        let n = r.u32()?;
        for _ in 0..n {
            let len = r.u16()? as usize;
            r.take(len)?;
            let k = r.u16()?;
            for _ in 0..k {
                let ty = if old { r.u16()? } else { r.u8()? as u16 };
                let len = if old { r.u64()? } else { r.u32()? as u64 };
                r.u8()?;
                let left = (b.len() - r.pos) as u64;
                let d = r.take(len.min(left) as usize)?;
                // More elements than an array may have are refused, whatever their width
                total = total.saturating_add(seg_zero_width(ty, d).filter(|n| *n <= if ty == 25 { 3 << 31 } else { 1 << 31 }).unwrap_or(0));
                if len > left {
                    return None;
                }
            }
        }
        None
    };
    walk();
    total
}
fn seg_zero_width(ty: u16, d: &[u8]) -> Option<u64> {
    let mut r = Rd { b: d, pos: 0 };
    let tri = |r: &mut Rd, copies: u64| -> Option<u64> {
        let bits = r.u8()?;
        let n = r.u64()?;
        Some(if bits == 0 { n.saturating_mul(copies) } else { 0 })
    };
    let name = |r: &mut Rd| -> Option<()> {
        let n = r.u8()? as usize;
        r.take(n)?;
        Some(())
    };
    match ty {
        1 => {
            let n = r.u64()?;
            r.take(48)?;
            Some(if r.take(3)? == [0, 0, 0] { n } else { 0 })
        }
        2 | 4 | 6 | 10 => tri(&mut r, 1),
        5 => {
            let bits = r.u8()?;
            let n = r.u64()?;
            Some(if bits == 0 { n } else { 0 })
        }
        15 | 24 => {
            name(&mut r)?;
            tri(&mut r, 1)
        }
        16 => {
            name(&mut r)?;
            let n = r.u64()?;
            r.take(16)?;
            Some(if r.u8()? == 0 { n } else { 0 })
        }
        23 => {
            name(&mut r)?;
            let n = r.u64()?;
            Some(if r.u8()? == 0 { n } else { 0 })
        }
        25 => {
            r.u8()?;
            tri(&mut r, 3)
        }
        _ => Some(0),
    }
}
fn c08_check(bytes: &[u8], how: u64, ctx: &mut Ctx) -> Res {
    ctx.describe(|| format!("{} bytes: {}", bytes.len(), bytes.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    let zero = zero_width(bytes);
    if zero > 500_000 {
        ctx.label("left out: zero-width elements");
        return Ok(());
    }
    let good_header = bytes.len() >= 15 && &bytes[..3] == b"TMF" && bytes[7..9] == [0, 0] && bytes[9] <= 2 && bytes[10] == 0;
    ctx.nontrivial_if(good_header);
    let (res, peak) = measure(|| {
        no_panic("reading", || match how {
            1 => TMFMesh::read_tmf_one(&mut &bytes[..]).map(|m| vec![m]),
            2 => block_on(TMFMesh::read_tmf_async(&mut &bytes[..])),
            _ => TMFMesh::read_tmf(&mut &bytes[..]),
        })
    });
    let res = res?;
    let allowed = (32 << 20) + 1024 * bytes.len() + 128 * zero as usize;
    if cfg!(not(feature = "most")) && peak > allowed {
        return Err(format!("reading {} bytes took {peak} bytes of memory ({} elements of zero bits)", bytes.len(), zero));
    }
    match res {
        Err(e) => {
            ctx.label("error");
            if e.to_string().is_empty() {
                return Err("the error has no text".to_owned());
            }
        }
        Ok(meshes) => {
            ctx.label("read");
            ctx.label_if(!meshes.is_empty(), "read some mesh");
            no_panic("inspecting a mesh read", || {
                for (m, name) in &meshes {
                    let c = m.clone();
                    let _ = m.verify().map_err(|e| format!("{e:?}{e}"));
                    let _ = (c.get_vertex_buffer(), c.get_normal_buffer(), c.get_uv_buffer());
                    for n in ["a", "b", "", "weights", name.as_str()] {
                        let _ = m.lookup_custom_data(n).map(Cd::from_tmf);
                    }
                    let _ = Md::from_tmf::<&str>(&c, &[]);
                }
            })?;
        }
    }
    Ok(())
}
fn c08_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b: Vec<u8> = match s.draw(3) {
        0 => vec![],
        1 => b"TMF".to_vec(),
        _ => {
            let mut b = b"TMF".to_vec();
            for v in [0u16, 2, 0, s.pick(&[2u16, 1, 0])] {
                b.extend_from_slice(&v.to_le_bytes());
            }
            if s.bool() {
                b.extend_from_slice(&1u32.to_le_bytes());
                b.extend_from_slice(&[0, 0]);
            }
            b
        }
    };
    let n = s.usize(0, 160);
    let style = s.draw(2);
    b.extend(s.array(n, |s, _| match style {
        0 => s.draw(255) as u8,
        1 => s.pick(&[0u8, 0, 1, 2, 3, 5, 9, 16, 25, 64, 255]),
        _ => s.draw(4) as u8,
    }));
    let how = s.draw(2);
    c08_check(&b, how, ctx)
}
fn interesting(s: &mut Src) -> u64 {
    match s.draw(3) {
        0 => s.pick(&[0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256]),
        1 => {
            let p = s.draw(63);
            (1u64 << p).wrapping_add(s.draw(4)).wrapping_sub(2)
        }
        2 => s.draw(300),
        _ => s.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 31, (1 << 31) + 1, u32::MAX as u64, 1 << 32, 0x7FF0_0000_0000_0000, 0x7FF8_0000_0000_0000, 0xFFF0_0000_0000_0000]),
    }
}
fn mutate(s: &mut Src, b: &mut Vec<u8>, other: &[u8]) {
    if b.is_empty() {
        return;
    }
    // Fields are near the start of a segment, and segments start anywhere
    let at = s.usize(0, b.len() - 1);
    match s.draw(8) {
        0 => b[at] ^= 1 << s.draw(7),
        1 => b[at] = interesting(s) as u8,
        2 => {
            let v = interesting(s).to_le_bytes();
            let w = s.pick(&[2usize, 4, 8]).min(b.len() - at);
            b[at..at + w].copy_from_slice(&v[..w]);
        }
        3 => {
            let n = s.usize(1, 16).min(b.len() - at);
            b.drain(at..at + n);
        }
        4 => {
            let n = s.usize(1, 16);
            let ins: Vec<u8> = s.array(n, |s, _| s.draw(255) as u8);
            b.splice(at..at, ins);
        }
        5 => {
            if !other.is_empty() {
                let from = s.usize(0, other.len() - 1);
                let n = s.usize(1, 64).min(other.len() - from);
                b.splice(at..at, other[from..from + n].iter().copied());
            }
        }
        6 => b.truncate(at),
        7 => {
            // Repeat a part
            let n = s.usize(1, 40).min(b.len() - at);
            let part: Vec<u8> = b[at..at + n].to_vec();
            b.splice(at..at, part);
        }
        _ => {
            let v = b[at].wrapping_add(s.pick(&[1u8, 255, 2, 8, 128]));
            b[at] = v;
        }
    }
}
fn c08_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = valid_file(s, 12);
    let other = if s.chance(1, 4) { valid_file(s, 12) } else { b.clone() };
    for _ in 0..s.range(1, 5) {
        mutate(s, &mut b, &other);
    }
    let how = s.draw(2);
    c08_check(&b, how, ctx)
}
/// A well-formed container whose segments hold arbitrary field values.
fn c08_structured(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut f, _) = gen_rfile(s, &FileOpts { max_meshes: 2, max_segs: 5, max_len: 10, ..FILE });
    let old = f.old();
    let mut hits = 0;
    let mut over_len: Option<(usize, usize, u64)> = None;
    let n = f.meshes.len();
    for (mi, m) in f.meshes.iter_mut().enumerate() {
        let k = m.segs.len();
        for (si, g) in m.segs.iter_mut().enumerate() {
            if !s.chance(1, 2) || g.data.is_empty() {
                continue;
            }
            hits += 1;
            // Where the fields are
            let name = if matches!(g.ty, 15 | 16 | 23 | 24) { 1 + g.data[0] as usize } else { 0 };
            let fields: Vec<(usize, usize)> = match g.ty {
                1 => vec![(0, 8), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 8), (56, 1), (57, 1), (58, 1)],
                3 | 9 => vec![(0, 8), (8, 1)],
                5 => vec![(0, 1), (1, 8)],
                2 | 4 | 6 | 10 => vec![(0, 1), (1, 8), (9, 8)],
                25 => vec![(0, 1), (1, 1), (2, 8), (10, 8)],
                15 | 24 => vec![(0, 1), (1, 1), (name, 1), (name + 1, 8), (name + 9, 8)],
                16 => vec![(0, 1), (1, 1), (name, 8), (name + 8, 8), (name + 16, 8), (name + 24, 1)],
                23 => vec![(0, 1), (1, 1), (name, 8), (name + 8, 1)],
                _ => vec![(0, 1)],
            };
            for _ in 0..s.range(1, 3) {
                let (at, w) = s.pick(&fields);
                let v = interesting(s).to_le_bytes();
                if at + w <= g.data.len() {
                    g.data[at..at + w].copy_from_slice(&v[..w]);
                }
            }
            match s.draw(9) {
                0 => g.comp = interesting(s) as u8,
                1 => g.ty = interesting(s) as u16,
                2 => {
                    let n = s.usize(0, g.data.len());
                    g.data.truncate(n);
                }
                3 => {
                    let n = s.usize(0, 30);
                    g.data.extend(std::iter::repeat(0xA5).take(n));
                }
                4 if mi + 1 == n && si + 1 == k => over_len = Some((mi, si, interesting(s))),
                _ => (),
            }
        }
    }
    if s.chance(1, 8) {
        f.version[3] = s.draw(2) as u16;
    }
    let mut b = f.encode();
    if let Some((_, _, v)) = over_len {
        // The length of the last segment
        let last = f.meshes.last().unwrap().segs.last().unwrap();
        let w = if old { 8 } else { 4 };
        if let Some(at) = b.len().checked_sub(last.data.len() + 1 + w) {
            b[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    }
    if s.chance(1, 16) {
        let v = interesting(s) as u32;
        b[11..15].copy_from_slice(&v.to_le_bytes());
    }
    ctx.label_if(hits > 0, "fields changed");
    let how = s.draw(2);
    c08_check(&b, how, ctx)
}
// ---------------------------------------------------------------------------------------------------- C09
fn read_err(b: &[u8], what: impl Fn() -> String) -> Res {
    match no_panic("reading", || TMFMesh::read_tmf(&mut &b[..]))? {
        Err(_) => Ok(()),
        Ok(m) => Err(format!("{}: {} meshes were read", what(), m.len())),
    }
}
fn c09_prefixes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = valid_file(s, 10);
    ctx.describe(|| format!("{} bytes: {}", b.len(), b.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    prefixes(&b, s, ctx)
}
/// A file longer than any buffer, cut anywhere, also on round numbers; and another file after it
fn c09_prefixes_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, what) = long_file(s);
    ctx.describe(|| what.clone());
    prefixes(&b, s, ctx)?;
    let mut all = b.clone();
    let next = valid_file(s, 10);
    all.extend_from_slice(&next);
    let mut r = &all[..];
    TMFMesh::read_tmf(&mut r).map_err(|e| format!("reading the long file failed: {e}"))?;
    if r != next {
        return Err(format!("after a file of {} bytes with {} more, {} are left", b.len(), next.len(), r.len()));
    }
    Ok(())
}
fn long_file(s: &mut Src) -> (Vec<u8>, String) {
    let meshes = [(gen_long_mesh(s, true), "long".to_owned())];
    let spec = gen_spec(s);
    (write(&meshes, &spec).expect("a valid mesh"), format!("{spec:?} {}", brief_meshes(&meshes)))
}
fn prefixes(b: &[u8], s: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial_if(b.len() > 30);
    let cuts: Vec<usize> = if b.len() <= 300 {
        (0..b.len()).collect()
    } else {
        let mut c: Vec<usize> = (0..100).collect();
        c.extend(b.len() - 60..b.len());
        for _ in 0..60 {
            c.push(s.usize(0, b.len() - 1));
        }
        for p in 8..24 {
            c.extend([(1 << p) - 1, 1 << p, (1 << p) + 1].into_iter().filter(|c| *c < b.len()));
        }
        c
    };
    ctx.count("cuts", cuts.len() as u64);
    for c in cuts {
        read_err(&b[..c], || format!("{c} of {} bytes", b.len()))?;
        if s.chance(1, 16) && TMFMesh::read_tmf_one(&mut &b[..c]).is_ok() {
            return Err(format!("{c} of {} bytes are read as one mesh", b.len()));
        }
    }
    Ok(())
}
fn c09_shortened(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (f, n) = if s.bool() {
        let f = gen_rfile(s, &FileOpts { max_meshes: 2, max_segs: 5, ..FILE }).0;
        let n: Vec<(usize, usize)> = f.meshes.iter().enumerate().flat_map(|(k, m)| (0..m.segs.len()).map(move |i| (k, i))).collect();
        (f, n)
    } else {
        let meshes = gen_meshes(s, &Opts { max_elems: 20, max_indices: 40, ..Opts::default() }, 2);
        let b = write(&meshes, &gen_spec(s))?;
        let Some((f, _)) = parse(&b) else { return Err("the file written is not well-formed".to_owned()) };
        let n = f.meshes.iter().enumerate().flat_map(|(k, m)| (0..m.segs.len()).map(move |i| (k, i))).collect();
        (f, n)
    };
    let known: Vec<(usize, usize)> = n.into_iter().filter(|(k, i)| matches!(f.meshes[*k].segs[*i].ty, 1..=6 | 9 | 10 | 15 | 16 | 23 | 24 | 25)).collect();
    if known.is_empty() {
        ctx.label("no segments");
        return Ok(());
    }
    let (k, i) = s.pick(&known);
    let mut g = f.clone();
    let d = &mut g.meshes[k].segs[i];
    ctx.nontrivial_if(true);
    let old = f.old();
    let what;
    if s.chance(2, 3) {
        // Less data, in a segment whose length says so
        let n = match s.draw(2) {
            0 => 1,
            1 => s.usize(1, 8),
            _ => s.usize(1, d.data.len()),
        }
        .min(d.data.len());
        let keep = d.data.len() - n;
        d.data.truncate(keep);
        what = format!("segment {i} (type {}) of mesh {k} without its last {n} bytes", d.ty);
    } else {
        // A greater count than there is data for
        let Some(p) = parse_payload(d, old) else { return Err("the file is not well-formed".to_owned()) };
        let (at, width, count) = match &p {
            Payload::Vert { bits, q, .. } => (0, bits.iter().map(|b| *b as u64).sum::<u64>(), q.len()),
            Payload::VTri(t) | Payload::NTri(t) | Payload::UvTri(t) | Payload::TanTri(t) => (1, t.bits as u64, t.q.len()),
            Payload::Shared(_, t) => (2, t.bits as u64, t.q.len()),
            Payload::Norm { bits, q } => (0, 3 + 2 * *bits as u64, q.len()),
            Payload::Tan { bits, q } => (0, 4 + 2 * *bits as u64, q.len()),
            Payload::Uv { bits, q } => (1, 2 * *bits as u64, q.len()),
            Payload::CIndex(n, t) | Payload::CInt(n, t) => (2 + n.len(), t.bits as u64, t.q.len()),
            Payload::CFloat { name, bits, q, .. } => (1 + name.len(), *bits as u64, q.len()),
            Payload::CRgba { name, bits, q } => (1 + name.len(), 4 * *bits as u64, q.len()),
            Payload::Unknown(_) => return Ok(()),
        };
        if width == 0 {
            ctx.label("no bits");
            return Ok(());
        }
        let more = 8 / width + 1 + s.draw(100);
        d.data[at..at + 8].copy_from_slice(&(count as u64 + more).to_le_bytes());
        what = format!("segment {i} (type {}) of mesh {k} with a count of {} instead of {count}", d.ty, count as u64 + more);
    }
    ctx.describe(|| format!("{what}; {}", brief_file(&f)));
    let b = g.encode();
    // What follows the segment must not be taken for its data
    read_err(&b, || what.clone())
}
fn c09_stream(s: &mut Src, ctx: &mut Ctx) -> Res {
    let k = s.usize(1, 4);
    let files: Vec<Vec<u8>> = (0..k).map(|_| valid_file(s, 10)).collect();
    let n = s.usize(0, 40);
    let trail: Vec<u8> = match s.draw(2) {
        0 => s.array(n, |s, _| s.draw(255) as u8),
        1 => files[0].iter().copied().take(n).collect(),
        _ => vec![],
    };
    let mut all: Vec<u8> = files.concat();
    all.extend_from_slice(&trail);
    let plan = if s.bool() { Plan::plain() } else { Plan::legal(s) };
    ctx.describe(|| format!("files of {:?} bytes, then {} bytes, {plan:?}: {}", files.iter().map(|f| f.len()).collect::<Vec<_>>(), trail.len(), all.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    ctx.nontrivial_if(k > 1 || !trail.is_empty());
    let mut r = OddReader::new(&all, plan);
    let mut pos = 0;
    for (i, f) in files.iter().enumerate() {
        pos += f.len();
        let alone = read(f)?;
        let one = s.bool() && alone.len() == 1;
        let got = if one {
            vec![TMFMesh::read_tmf_one(&mut r).map_err(|e| format!("file {i} failed: {e}"))?]
        } else {
            TMFMesh::read_tmf(&mut r).map_err(|e| format!("file {i} failed: {e}"))?
        };
        if r.pos != pos {
            return Err(format!("after file {i} the source is at byte {} instead of {pos}", r.pos));
        }
        same_meshes(&alone, &got).map_err(|e| format!("file {i}: {e}"))?;
    }
    Ok(())
}
/// Bit-exact equality of meshes and names.
pub fn same_meshes(a: &[(TMFMesh, String)], b: &[(TMFMesh, String)]) -> Res {
    if a.len() != b.len() {
        return Err(format!("{} meshes instead of {}", b.len(), a.len()));
    }
    for (k, ((x, n), (y, m))) in a.iter().zip(b).enumerate() {
        if n != m {
            return Err(format!("mesh {k} is named {m:.60?} instead of {n:.60?}"));
        }
        let names = ["a", "b", "c", "weights", "1k", "4k", "5k", "11k", "20k"];
        let (x, y) = (Md::from_tmf(x, &names), Md::from_tmf(y, &names));
        same_structure(&x, &y).map_err(|e| format!("mesh {k}: {e}"))?;
        // NaNs are equal here
        if x != y && format!("{x:?}") != format!("{y:?}") {
            return Err(format!("mesh {k} has other values"));
        }
    }
    Ok(())
}
// ---------------------------------------------------------------------------------------------------- C10
const KINDS: [ErrorKind; 7] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::InvalidData];
fn faulty(s: &mut Src, at: usize) -> Plan {
    let mut p = if s.bool() { Plan::plain() } else { Plan::legal(s) };
    p.fail_at = Some(at);
    p.kind = if s.chance(1, 3) { Fault::Zero } else { Fault::Error(s.pick(&KINDS)) };
    p.once = s.bool();
    p
}
fn places(s: &mut Src, len: usize) -> Vec<usize> {
    if len <= 120 {
        (0..len).collect()
    } else {
        let mut c: Vec<usize> = (0..40).collect();
        c.extend(len - 20..len);
        for _ in 0..40 {
            c.push(s.usize(0, len - 1));
        }
        c
    }
}
fn check_sink(s: &mut Src, full: &[u8], ctx: &mut Ctx, write: impl Fn(&mut OddWriter) -> Result<(), String>) -> Res {
    let at = places(s, full.len());
    ctx.count("faults", at.len() as u64);
    ctx.nontrivial_if(!full.is_empty());
    for p in at {
        check_sink_at(s, full, p, &write)?;
    }
    Ok(())
}
fn check_sink_at(s: &mut Src, full: &[u8], p: usize, write: &impl Fn(&mut OddWriter) -> Result<(), String>) -> Res {
    let plan = faulty(s, p);
    let mut w = OddWriter::new(plan.clone());
    let res = no_panic("writing", || write(&mut w))?;
    if w.faults == 0 {
        return Err(format!("the complete output is not {} bytes when written in parts ({plan:?})", full.len()));
    }
    if res.is_ok() {
        return Err(format!("writing succeeded although the sink failed after {p} of {} bytes ({plan:?}); it got {} bytes", full.len(), w.out.len()));
    }
    if !full.starts_with(&w.out) {
        return Err(format!("the sink failed after {p} of {} bytes ({plan:?}), and got {} bytes that are not the start of the output", full.len(), w.out.len()));
    }
    Ok(())
}
fn tmf_meshes(s: &mut Src) -> (Vec<(Md, String)>, Spec) {
    (gen_meshes(s, &Opts { max_elems: 12, max_indices: 24, ..Opts::default() }, 3), gen_spec(s))
}
fn c10_tmf_sink(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (meshes, spec) = tmf_meshes(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    let full = write(&meshes, &spec)?;
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let one = s.bool() && list.len() == 1;
    check_sink(s, &full, ctx, |w| {
        if one {
            list[0].0.write_tmf_one(w, &spec.to_tmf(), list[0].1).map_err(|e| e.to_string())
        } else {
            TMFMesh::write_tmf(&list, w, &spec.to_tmf()).map_err(|e| e.to_string())
        }
    })
}
fn c10_tmf_source(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = valid_file(s, 12);
    ctx.describe(|| format!("{} bytes: {}", b.len(), b.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    ctx.nontrivial_if(b.len() > 30);
    let at = places(s, b.len());
    ctx.count("faults", at.len() as u64);
    for p in at {
        check_source_at(s, &b, p)?;
    }
    Ok(())
}
fn check_source_at(s: &mut Src, b: &[u8], p: usize) -> Res {
    let mut plan = faulty(s, p);
    // A source that reports its end once and then has more was not cut
    plan.once &= plan.kind != Fault::Zero;
    let mut r = OddReader::new(b, plan.clone());
    let res = no_panic("reading", || TMFMesh::read_tmf(&mut r))?;
    if let Ok(m) = res {
        return Err(format!("{} meshes were read although the source failed after {p} of {} bytes ({plan:?})", m.len(), b.len()));
    }
    Ok(())
}
fn c10_obj_sink(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = obj::gen_obj_meshes(s, 12, 3);
    ctx.describe(|| brief_meshes(&meshes));
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let mut full = Vec::new();
    TMFMesh::write_obj(&list, &mut full).map_err(|e| format!("exporting failed: {e}"))?;
    let one = s.bool() && list.len() == 1;
    if one {
        full.clear();
        list[0].0.write_obj_one(&mut full, list[0].1).map_err(|e| format!("exporting failed: {e}"))?;
    }
    check_sink(s, &full, ctx, |w| {
        if one {
            list[0].0.write_obj_one(w, list[0].1).map_err(|e| e.to_string())
        } else {
            TMFMesh::write_obj(&list, w).map_err(|e| e.to_string())
        }
    })
}
/// Longer than any buffer.
fn c10_tmf_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = [(gen_long_mesh(s, true), "long".to_owned())];
    let spec = gen_spec(s);
    ctx.describe(|| format!("{spec:?} {}", brief_meshes(&meshes)));
    let full = write(&meshes, &spec)?;
    ctx.label_if(full.len() > 65_536, "over 64 kB");
    ctx.nontrivial_if(true);
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let p = spec.to_tmf();
    let some = |s: &mut Src| (0..8).map(|k| if k < 2 { full.len() - 1 - s.usize(0, 40) } else { s.usize(0, full.len() - 1) }).collect::<Vec<_>>();
    ctx.count("faults", 16);
    for at in some(s) {
        check_sink_at(s, &full, at, &|w| TMFMesh::write_tmf(&list, w, &p).map_err(|e| e.to_string()))?;
    }
    for at in some(s) {
        check_source_at(s, &full, at)?;
    }
    // As many bytes per call as a pipe or socket gives
    let most = |s: &mut Src| Plan { max: s.pick(&[64usize, 1000, 4096, 8192, 65_536]), ..Plan::legal(s) };
    let mut w = OddWriter::new(most(s));
    TMFMesh::write_tmf(&list, &mut w, &p).map_err(|e| format!("writing failed: {e}"))?;
    if w.out != full {
        return Err(format!("written in parts, the file has {} bytes and differs from the one of {} bytes", w.out.len(), full.len()));
    }
    let mut r = OddReader::new(&full, most(s));
    let got = TMFMesh::read_tmf(&mut r).map_err(|e| format!("reading failed: {e}"))?;
    same_meshes(&read(&full)?, &got)
}
/// Longer than any buffer.
fn c10_obj_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let meshes = obj::gen_obj_meshes(s, 900, 2);
    ctx.describe(|| brief_meshes(&meshes));
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let mut full = Vec::new();
    TMFMesh::write_obj(&list, &mut full).map_err(|e| format!("exporting failed: {e}"))?;
    ctx.label_if(full.len() > 8192, "over 8 kB");
    check_sink(s, &full, ctx, |w| TMFMesh::write_obj(&list, w).map_err(|e| e.to_string()))?;
    obj_source(s, &full, ctx)
}
fn obj_source(s: &mut Src, b: &[u8], ctx: &mut Ctx) -> Res {
    let mut at = places(s, b.len());
    at.push(b.len());
    ctx.count("faults", at.len() as u64);
    for p in at {
        let mut plan = faulty(s, p);
        if plan.kind == Fault::Zero {
            // For text that is just its end
            plan.kind = Fault::Error(ErrorKind::Other);
        }
        let mut r = OddReader::new(b, plan.clone());
        let res = no_panic("importing", || TMFMesh::read_from_obj(&mut r))?;
        if let Ok(m) = res {
            return Err(format!("{} meshes were imported although the source failed after {p} of {} bytes ({plan:?})", m.len(), b.len()));
        }
    }
    Ok(())
}
fn c10_obj_source(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = obj::gen_text(s).text;
    ctx.describe(|| String::from_utf8_lossy(&b).into_owned());
    ctx.nontrivial_if(!b.is_empty());
    obj_source(s, &b, ctx)
}
fn c10_legal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (wp, rp) = (Plan::legal(s), Plan::legal(s));
    ctx.nontrivial_if((wp.max > 0 || wp.interrupts) && (rp.max > 0 || rp.interrupts));
    if s.bool() {
        let (meshes, spec) = tmf_meshes(s);
        ctx.describe(|| format!("sink {wp:?} source {rp:?} {spec:?} {}", brief_meshes(&meshes)));
        let full = write(&meshes, &spec)?;
        let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
        let mut w = OddWriter::new(wp);
        TMFMesh::write_tmf(&list, &mut w, &spec.to_tmf()).map_err(|e| format!("writing failed: {e}"))?;
        if w.out != full {
            return Err(format!("written in parts, the file has {} bytes and differs from the one of {} bytes", w.out.len(), full.len()));
        }
        let mut r = OddReader::new(&full, rp);
        let got = TMFMesh::read_tmf(&mut r).map_err(|e| format!("reading failed: {e}"))?;
        same_meshes(&read(&full)?, &got)
    } else {
        let meshes = obj::gen_obj_meshes(s, 12, 3);
        ctx.describe(|| format!("sink {wp:?} source {rp:?} {}", brief_meshes(&meshes)));
        let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
        let mut full = Vec::new();
        TMFMesh::write_obj(&list, &mut full).map_err(|e| format!("exporting failed: {e}"))?;
        let mut w = OddWriter::new(wp);
        TMFMesh::write_obj(&list, &mut w).map_err(|e| format!("exporting failed: {e}"))?;
        if w.out != full {
            return Err("exported in parts, the text differs".to_owned());
        }
        let a = TMFMesh::read_from_obj(&mut &full[..]).map_err(|e| format!("importing failed: {e}"))?;
        let mut r = OddReader::new(&full, rp);
        let got = TMFMesh::read_from_obj(&mut r).map_err(|e| format!("importing failed: {e}"))?;
        same_meshes(&a, &got)
    }
}
