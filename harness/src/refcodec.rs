//! An independent implementation of the TMF format (versions 0.1 and 0.2), written from the description of the format
//! and not from the library's reader: bits are kept in one big array, values are 64-bit integers and doubles.
use crate::model::*;
pub struct Bits {
    bits: Vec<bool>,
    pos: usize,
}
impl Bits {
    pub fn new() -> Self {
        Bits { bits: Vec::new(), pos: 0 }
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut bits = Vec::with_capacity(b.len() * 8);
        for byte in b {
            for k in (0..8).rev() {
                bits.push(byte >> k & 1 == 1);
            }
        }
        Bits { bits, pos: 0 }
    }
    pub fn put(&mut self, v: u64, width: u32) {
        for k in (0..width).rev() {
            self.bits.push(v >> k & 1 == 1);
        }
    }
    pub fn get(&mut self, width: u32) -> Option<u64> {
        if self.pos + width as usize > self.bits.len() {
            return None;
        }
        let mut v = 0;
        for _ in 0..width {
            v = v << 1 | self.bits[self.pos] as u64;
            self.pos += 1;
        }
        Some(v)
    }
    /// Less than a byte is left, and it is all zeros
    pub fn done(&self) -> bool {
        self.bits.len() - self.pos < 8 && self.bits[self.pos..].iter().all(|b| !b)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits
            .chunks(8)
            .map(|c| {
                let mut v = 0u8;
                for (k, b) in c.iter().enumerate() {
                    v |= (*b as u8) << (7 - k);
                }
                v
            })
            .collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tri {
    pub bits: u8,
    pub min: u64,
    /// Offsets from *min*
    pub q: Vec<u64>,
}
impl Tri {
    pub fn values(&self) -> Vec<u64> {
        self.q.iter().map(|q| q.wrapping_add(self.min)).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Payload {
    Vert { min: [f64; 3], max: [f64; 3], bits: [u8; 3], q: Vec<[u64; 3]> },
    VTri(Tri),
    Norm { bits: u8, q: Vec<Dir> },
    NTri(Tri),
    Uv { bits: u8, q: Vec<[u64; 2]> },
    UvTri(Tri),
    Tan { bits: u8, q: Vec<(bool, Dir)> },
    TanTri(Tri),
    CIndex(Vec<u8>, Tri),
    CInt(Vec<u8>, Tri),
    CFloat { name: Vec<u8>, min: f64, max: f64, bits: u8, q: Vec<u64> },
    CRgba { name: Vec<u8>, bits: u8, q: Vec<[u64; 4]> },
    Shared(u8, Tri),
    Unknown(Vec<u8>),
}
/// Signs (true: negative), quantised angle and quantised z
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dir {
    pub s: [bool; 3],
    pub a: u64,
    pub z: u64,
}
pub fn top(bits: u8) -> f64 {
    if bits == 0 {
        1.0
    } else {
        ((1u128 << bits) - 1) as f64
    }
}
impl Dir {
    pub fn value(&self, bits: u8) -> [f64; 3] {
        let sg = |k: usize| if self.s[k] { -1.0 } else { 1.0 };
        if bits == 0 {
            // The format has no direction of zero bits
            return [0.0; 3];
        }
        let a = self.a as f64 / top(bits) * std::f64::consts::FRAC_PI_2;
        let z = self.z as f64 / top(bits);
        let r = (1.0 - z * z).max(0.0).sqrt();
        [a.sin() * r * sg(0), a.cos() * r * sg(1), z * sg(2)]
    }
}
#[derive(Clone, Debug)]
pub struct Seg {
    pub ty: u16,
    pub comp: u8,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct RMesh {
    pub name: Vec<u8>,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug)]
pub struct RFile {
    pub version: [u16; 4],
    pub meshes: Vec<RMesh>,
}
impl RFile {
    pub fn old(&self) -> bool {
        self.version[3] <= 1
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = b"TMF".to_vec();
        for v in self.version {
            o.extend_from_slice(&v.to_le_bytes());
        }
        o.extend_from_slice(&(self.meshes.len() as u32).to_le_bytes());
        for m in &self.meshes {
            o.extend_from_slice(&(m.name.len() as u16).to_le_bytes());
            o.extend_from_slice(&m.name);
            o.extend_from_slice(&(m.segs.len() as u16).to_le_bytes());
            for s in &m.segs {
                if self.old() {
                    o.extend_from_slice(&s.ty.to_le_bytes());
                    o.extend_from_slice(&(s.data.len() as u64).to_le_bytes());
                } else {
                    o.push(s.ty as u8);
                    o.extend_from_slice(&(s.data.len() as u32).to_le_bytes());
                }
                o.push(s.comp);
                o.extend_from_slice(&s.data);
            }
        }
        o
    }
}
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.b.len() - self.pos {
            return None;
        }
        self.pos += n;
        Some(&self.b[self.pos - n..self.pos])
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn f64(&mut self) -> Option<f64> {
        Some(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
}
/// Splits a file into its segments. None if it is cut short or does not start like a TMF file.
pub fn parse(b: &[u8]) -> Option<(RFile, usize)> {
    let mut r = Rd { b, pos: 0 };
    if r.take(3)? != b"TMF" {
        return None;
    }
    let version = [r.u16()?, r.u16()?, r.u16()?, r.u16()?];
    let old = version[3] <= 1;
    let n = r.u32()?;
    let mut meshes = Vec::new();
    for _ in 0..n {
        let len = r.u16()? as usize;
        let name = r.take(len)?.to_vec();
        let k = r.u16()?;
        let mut segs = Vec::new();
        for _ in 0..k {
            let ty = if old { r.u16()? } else { r.u8()? as u16 };
            let len = if old { usize::try_from(r.u64()?).ok()? } else { r.u32()? as usize };
            let comp = r.u8()?;
            segs.push(Seg { ty, comp, data: r.take(len)?.to_vec() });
        }
        meshes.push(RMesh { name, segs });
    }
    Some((RFile { version, meshes }, r.pos))
}
fn parse_tri(r: &mut Rd, old: bool) -> Option<Tri> {
    let bits = r.u8()?;
    let count = r.u64()?;
    let min = if old { 0 } else { r.u64()? };
    if bits > 64 {
        return None;
    }
    let rest = r.take(r.b.len() - r.pos)?;
    if bits > 0 && count as u128 * bits as u128 > rest.len() as u128 * 8 {
        return None;
    }
    let mut u = Bits::from_bytes(rest);
    let q = (0..count).map(|_| u.get(bits as u32)).collect::<Option<Vec<_>>>()?;
    if !u.done() {
        return None;
    }
    Some(Tri { bits, min, q })
}
fn uba(r: &mut Rd, count: u64, per: u32) -> Option<Bits> {
    let rest = r.take(r.b.len() - r.pos)?;
    let need = (count as u128 * per as u128 + 7) / 8;
    if need != rest.len() as u128 {
        return None;
    }
    Some(Bits::from_bytes(rest))
}
fn get_dir(u: &mut Bits, bits: u8) -> Option<Dir> {
    let s = [u.get(1)? == 1, u.get(1)? == 1, u.get(1)? == 1];
    Some(Dir { s, a: u.get(bits as u32)?, z: u.get(bits as u32)? })
}
/// Decodes a segment strictly: its data must have exactly the length its count and widths need, with zero padding.
pub fn parse_payload(s: &Seg, old: bool) -> Option<Payload> {
    let mut r = Rd { b: &s.data, pos: 0 };
    let name = |r: &mut Rd| -> Option<Vec<u8>> {
        let n = r.u8()? as usize;
        Some(r.take(n)?.to_vec())
    };
    Some(match s.ty {
        1 => {
            let n = r.u64()?;
            let mut min = [0.0; 3];
            let mut max = [0.0; 3];
            for k in 0..3 {
                min[k] = r.f64()?;
                max[k] = r.f64()?;
            }
            let bits = [r.u8()?, r.u8()?, r.u8()?];
            if bits.iter().any(|b| *b > 63) {
                return None;
            }
            let mut u = uba(&mut r, n, bits.iter().map(|b| *b as u32).sum())?;
            let mut q = Vec::new();
            for _ in 0..n {
                q.push([u.get(bits[0] as u32)?, u.get(bits[1] as u32)?, u.get(bits[2] as u32)?]);
            }
            if !u.done() {
                return None;
            }
            Payload::Vert { min, max, bits, q }
        }
        2 => Payload::VTri(parse_tri(&mut r, old)?),
        4 => Payload::NTri(parse_tri(&mut r, old)?),
        6 => Payload::UvTri(parse_tri(&mut r, old)?),
        10 => Payload::TanTri(parse_tri(&mut r, old)?),
        3 => {
            let n = r.u64()?;
            let bits = r.u8()?;
            if bits > 63 {
                return None;
            }
            let mut u = uba(&mut r, n, 3 + 2 * bits as u32)?;
            let mut q = Vec::new();
            for _ in 0..n {
                q.push(get_dir(&mut u, bits)?);
            }
            if !u.done() {
                return None;
            }
            Payload::Norm { bits, q }
        }
        9 => {
            let n = r.u64()?;
            let bits = r.u8()?;
            if bits > 63 {
                return None;
            }
            let mut u = uba(&mut r, n, 4 + 2 * bits as u32)?;
            let mut q = Vec::new();
            for _ in 0..n {
                q.push((u.get(1)? == 1, get_dir(&mut u, bits)?));
            }
            if !u.done() {
                return None;
            }
            Payload::Tan { bits, q }
        }
        5 => {
            let bits = r.u8()?;
            let n = r.u64()?;
            if bits > 63 {
                return None;
            }
            let mut u = uba(&mut r, n, 2 * bits as u32)?;
            let mut q = Vec::new();
            for _ in 0..n {
                q.push([u.get(bits as u32)?, u.get(bits as u32)?]);
            }
            if !u.done() {
                return None;
            }
            Payload::Uv { bits, q }
        }
        15 => {
            let nm = name(&mut r)?;
            Payload::CIndex(nm, parse_tri(&mut r, old)?)
        }
        24 => {
            let nm = name(&mut r)?;
            Payload::CInt(nm, parse_tri(&mut r, old)?)
        }
        16 => {
            let nm = name(&mut r)?;
            let n = r.u64()?;
            let min = r.f64()?;
            let max = r.f64()?;
            let bits = r.u8()?;
            if bits > 63 {
                return None;
            }
            let mut u = uba(&mut r, n, bits as u32)?;
            let mut q = Vec::new();
            for _ in 0..n {
                q.push(u.get(bits as u32)?);
            }
            if !u.done() {
                return None;
            }
            Payload::CFloat { name: nm, min, max, bits, q }
        }
        23 => {
            let nm = name(&mut r)?;
            let n = r.u64()?;
            let bits = r.u8()?;
            if bits > 63 {
                return None;
            }
            let mut u = uba(&mut r, n, 4 * bits as u32)?;
            let mut q = Vec::new();
            for _ in 0..n {
                let b = bits as u32;
                q.push([u.get(b)?, u.get(b)?, u.get(b)?, u.get(b)?]);
            }
            if !u.done() {
                return None;
            }
            Payload::CRgba { name: nm, bits, q }
        }
        25 => {
            let mask = r.u8()?;
            Payload::Shared(mask, parse_tri(&mut r, old)?)
        }
        _ => Payload::Unknown(s.data.clone()),
    })
}
fn put_tri(o: &mut Vec<u8>, t: &Tri, old: bool) {
    o.push(t.bits);
    o.extend_from_slice(&(t.q.len() as u64).to_le_bytes());
    if !old {
        o.extend_from_slice(&t.min.to_le_bytes());
    }
    let mut u = Bits::new();
    for q in &t.q {
        u.put(*q, t.bits as u32);
    }
    o.extend(u.bytes());
}
fn put_dir(u: &mut Bits, d: &Dir, bits: u8) {
    for s in d.s {
        u.put(s as u64, 1);
    }
    u.put(d.a, bits as u32);
    u.put(d.z, bits as u32);
}
pub fn encode_payload(p: &Payload, ty_unknown: u16, old: bool) -> Seg {
    let mut o = Vec::new();
    let mut u = Bits::new();
    let put_name = |o: &mut Vec<u8>, n: &[u8]| {
        o.push(n.len() as u8);
        o.extend_from_slice(n);
    };
    let ty = match p {
        Payload::Vert { min, max, bits, q } => {
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            for k in 0..3 {
                o.extend_from_slice(&min[k].to_le_bytes());
                o.extend_from_slice(&max[k].to_le_bytes());
            }
            o.extend_from_slice(bits);
            for q in q {
                for k in 0..3 {
                    u.put(q[k], bits[k] as u32);
                }
            }
            1
        }
        Payload::VTri(t) => {
            put_tri(&mut o, t, old);
            2
        }
        Payload::NTri(t) => {
            put_tri(&mut o, t, old);
            4
        }
        Payload::UvTri(t) => {
            put_tri(&mut o, t, old);
            6
        }
        Payload::TanTri(t) => {
            put_tri(&mut o, t, old);
            10
        }
        Payload::Norm { bits, q } => {
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            o.push(*bits);
            for d in q {
                put_dir(&mut u, d, *bits);
            }
            3
        }
        Payload::Tan { bits, q } => {
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            o.push(*bits);
            for (h, d) in q {
                u.put(*h as u64, 1);
                put_dir(&mut u, d, *bits);
            }
            9
        }
        Payload::Uv { bits, q } => {
            o.push(*bits);
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            for q in q {
                u.put(q[0], *bits as u32);
                u.put(q[1], *bits as u32);
            }
            5
        }
        Payload::CIndex(n, t) => {
            put_name(&mut o, n);
            put_tri(&mut o, t, old);
            15
        }
        Payload::CInt(n, t) => {
            put_name(&mut o, n);
            put_tri(&mut o, t, old);
            24
        }
        Payload::CFloat { name, min, max, bits, q } => {
            put_name(&mut o, name);
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            o.extend_from_slice(&min.to_le_bytes());
            o.extend_from_slice(&max.to_le_bytes());
            o.push(*bits);
            for q in q {
                u.put(*q, *bits as u32);
            }
            16
        }
        Payload::CRgba { name, bits, q } => {
            put_name(&mut o, name);
            o.extend_from_slice(&(q.len() as u64).to_le_bytes());
            o.push(*bits);
            for q in q {
                for c in q {
                    u.put(*c, *bits as u32);
                }
            }
            23
        }
        Payload::Shared(mask, t) => {
            o.push(*mask);
            put_tri(&mut o, t, old);
            25
        }
        Payload::Unknown(d) => {
            o.extend_from_slice(d);
            ty_unknown
        }
    };
    o.extend(u.bytes());
    Seg { ty, comp: 0, data: o }
}
/// Values of a mesh, independent of the index and float type of the library.
#[derive(Clone, Debug, PartialEq)]
pub enum CanonCustom {
    Index(Vec<u64>),
    Int(Vec<u64>),
    Float(Vec<f64>),
    Rgba(Vec<[f64; 4]>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Canon {
    pub v: Option<Vec<[f64; 3]>>,
    pub n: Option<Vec<[f64; 3]>>,
    pub uv: Option<Vec<[f64; 2]>>,
    pub t: Option<Vec<[f64; 4]>>,
    pub vt: Option<Vec<u64>>,
    pub nt: Option<Vec<u64>>,
    pub uvt: Option<Vec<u64>>,
    pub tt: Option<Vec<u64>>,
    /// All of them, in order
    pub custom: Vec<(String, CanonCustom)>,
    /// Greatest magnitude of a box values were interpolated in
    pub mag: f64,
}
fn ext<T: Clone>(o: &mut Option<Vec<T>>, d: &[T]) {
    match o {
        Some(a) => a.extend_from_slice(d),
        None => *o = Some(d.to_vec()),
    }
}
fn lerp(min: f64, max: f64, q: u64, bits: u8) -> f64 {
    min + (max - min) * (q as f64 / top(bits))
}
impl Canon {
    pub fn from_md(m: &Md) -> Self {
        let t3 = |a: &Vec<V3>| a.iter().map(|p| [p.0 as f64, p.1 as f64, p.2 as f64]).collect();
        let ix = |a: &Vec<I>| a.iter().map(|i| *i as u64).collect();
        Canon {
            v: m.v.as_ref().map(t3),
            n: m.n.as_ref().map(t3),
            uv: m.uv.as_ref().map(|a| a.iter().map(|p| [p.0 as f64, p.1 as f64]).collect()),
            t: m.t.as_ref().map(|a| a.iter().map(|(p, h)| [p.0 as f64, p.1 as f64, p.2 as f64, *h as f64]).collect()),
            vt: m.vt.as_ref().map(ix),
            nt: m.nt.as_ref().map(ix),
            uvt: m.uvt.as_ref().map(ix),
            tt: m.tt.as_ref().map(ix),
            custom: m
                .custom
                .iter()
                .map(|(n, d)| {
                    (
                        n.clone(),
                        match d {
                            Cd::Index(a, _) => CanonCustom::Index(ix(a)),
                            Cd::Int(a, _) => CanonCustom::Int(ix(a)),
                            Cd::Float(a, _) => CanonCustom::Float(a.iter().map(|x| *x as f64).collect()),
                            Cd::Rgba(a, _) => CanonCustom::Rgba(a.iter().map(|p| [p.0 as f64, p.1 as f64, p.2 as f64, p.3 as f64]).collect()),
                        },
                    )
                })
                .collect(),
            mag: 0.0,
        }
    }
    /// Adds what the segment *p* holds.
    pub fn apply(&mut self, p: &Payload) -> Option<()> {
        match p {
            Payload::Vert { min, max, bits, q } => {
                min.iter().chain(max).for_each(|x| self.mag = self.mag.max(x.abs()));
                let a: Vec<[f64; 3]> = q.iter().map(|q| [lerp(min[0], max[0], q[0], bits[0]), lerp(min[1], max[1], q[1], bits[1]), lerp(min[2], max[2], q[2], bits[2])]).collect();
                ext(&mut self.v, &a);
            }
            Payload::VTri(t) => ext(&mut self.vt, &t.values()),
            Payload::NTri(t) => ext(&mut self.nt, &t.values()),
            Payload::UvTri(t) => ext(&mut self.uvt, &t.values()),
            Payload::TanTri(t) => ext(&mut self.tt, &t.values()),
            Payload::Shared(mask, t) => {
                if mask & 1 != 0 {
                    ext(&mut self.vt, &t.values());
                }
                if mask & 2 != 0 {
                    ext(&mut self.nt, &t.values());
                }
                if mask & 4 != 0 {
                    ext(&mut self.uvt, &t.values());
                }
            }
            Payload::Norm { bits, q } => {
                let a: Vec<[f64; 3]> = q.iter().map(|d| d.value(*bits)).collect();
                ext(&mut self.n, &a);
            }
            Payload::Tan { bits, q } => {
                let a: Vec<[f64; 4]> = q
                    .iter()
                    .map(|(h, d)| {
                        let p = d.value(*bits);
                        [p[0], p[1], p[2], if *h { -1.0 } else { 1.0 }]
                    })
                    .collect();
                ext(&mut self.t, &a);
            }
            Payload::Uv { bits, q } => {
                let a: Vec<[f64; 2]> = q.iter().map(|q| [q[0] as f64 / top(*bits), q[1] as f64 / top(*bits)]).collect();
                ext(&mut self.uv, &a);
            }
            Payload::CIndex(n, t) => self.custom.push((String::from_utf8(n.clone()).ok()?, CanonCustom::Index(t.values()))),
            Payload::CInt(n, t) => self.custom.push((String::from_utf8(n.clone()).ok()?, CanonCustom::Int(t.values()))),
            Payload::CFloat { name, min, max, bits, q } => {
                self.mag = self.mag.max(min.abs()).max(max.abs());
                let a = q.iter().map(|q| lerp(*min, *max, *q, *bits)).collect();
                self.custom.push((String::from_utf8(name.clone()).ok()?, CanonCustom::Float(a)));
            }
            Payload::CRgba { name, bits, q } => {
                let t = top(*bits);
                let a = q.iter().map(|q| [q[0] as f64 / t, q[1] as f64 / t, q[2] as f64 / t, q[3] as f64 / t]).collect();
                self.custom.push((String::from_utf8(name.clone()).ok()?, CanonCustom::Rgba(a)));
            }
            Payload::Unknown(_) => (),
        }
        Some(())
    }
    /// Only the first of the custom data with each name, which is what can be looked up.
    pub fn first_custom(mut self) -> Self {
        let mut seen: Vec<String> = Vec::new();
        self.custom.retain(|(n, _)| {
            if seen.contains(n) {
                false
            } else {
                seen.push(n.clone());
                true
            }
        });
        self
    }
    /// Compares with tolerances: *rel* of the magnitude of coordinates, *dir* for directions.
    pub fn close(&self, o: &Canon, rel: f64, dir: f64) -> Result<(), String> {
        fn arr<T: Clone + std::fmt::Debug>(what: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>, ok: impl Fn(&T, &T) -> bool) -> Result<(), String> {
            match (a, b) {
                (None, None) => Ok(()),
                (Some(a), Some(b)) => {
                    if a.len() != b.len() {
                        return Err(format!("{what}: {} elements instead of {}", b.len(), a.len()));
                    }
                    for (k, (x, y)) in a.iter().zip(b).enumerate() {
                        if !ok(x, y) {
                            return Err(format!("{what}[{k}] is {y:?} instead of {x:?}"));
                        }
                    }
                    Ok(())
                }
                _ => Err(format!("{what}: present: {} instead of {}", b.is_some(), a.is_some())),
            }
        }
        let scale = |a: &Option<Vec<[f64; 3]>>| a.iter().flatten().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
        let vs = scale(&self.v).max(self.mag) * rel + 1e-35;
        arr("vertices", &self.v, &o.v, |x, y| (0..3).all(|k| x[k] == y[k] || (x[k] - y[k]).abs() <= vs))?;
        arr("normals", &self.n, &o.n, |x, y| (0..3).all(|k| (x[k] - y[k]).abs() <= dir))?;
        arr("uvs", &self.uv, &o.uv, |x, y| (0..2).all(|k| (x[k] - y[k]).abs() <= rel))?;
        arr("tangents", &self.t, &o.t, |x, y| x[3] == y[3] && (0..3).all(|k| (x[k] - y[k]).abs() <= dir))?;
        arr("vertex triangles", &self.vt, &o.vt, |x, y| x == y)?;
        arr("normal triangles", &self.nt, &o.nt, |x, y| x == y)?;
        arr("uv triangles", &self.uvt, &o.uvt, |x, y| x == y)?;
        arr("tangent triangles", &self.tt, &o.tt, |x, y| x == y)?;
        if self.custom.len() != o.custom.len() {
            return Err(format!("{} custom arrays instead of {}", o.custom.len(), self.custom.len()));
        }
        for ((n, a), (m, b)) in self.custom.iter().zip(&o.custom) {
            if n != m {
                return Err(format!("custom data {m:?} instead of {n:?}"));
            }
            match (a, b) {
                (CanonCustom::Index(a), CanonCustom::Index(b)) | (CanonCustom::Int(a), CanonCustom::Int(b)) if a == b => (),
                (CanonCustom::Float(a), CanonCustom::Float(b)) if a.len() == b.len() => {
                    let s = a.iter().fold(self.mag, |m, x| m.max(x.abs())) * rel + 1e-35;
                    if let Some(k) = (0..a.len()).find(|k| a[*k] != b[*k] && !((a[*k] - b[*k]).abs() <= s)) {
                        return Err(format!("custom floats {n:?}[{k}] is {} instead of {}", b[k], a[k]));
                    }
                }
                (CanonCustom::Rgba(a), CanonCustom::Rgba(b)) if a.len() == b.len() => {
                    for k in 0..a.len() {
                        if (0..4).any(|c| !((a[k][c] - b[k][c]).abs() <= rel)) {
                            return Err(format!("custom colours {n:?}[{k}] is {:?} instead of {:?}", b[k], a[k]));
                        }
                    }
                }
                _ => return Err(format!("custom data {n:?} differs: {b:?} instead of {a:?}").chars().take(400).collect()),
            }
        }
        Ok(())
    }
    pub fn to_bytes(&self, o: &mut Vec<u8>) {
        fn len<T>(o: &mut Vec<u8>, a: &Option<Vec<T>>) {
            o.extend_from_slice(&a.as_ref().map_or(u64::MAX, |a| a.len() as u64).to_le_bytes());
        }
        fn fl<const N: usize>(o: &mut Vec<u8>, a: &Option<Vec<[f64; N]>>) {
            len(o, a);
            a.iter().flatten().flatten().for_each(|x| o.extend_from_slice(&x.to_bits().to_le_bytes()));
        }
        fn ix(o: &mut Vec<u8>, a: &Option<Vec<u64>>) {
            len(o, a);
            a.iter().flatten().for_each(|x| o.extend_from_slice(&x.to_le_bytes()));
        }
        fl(o, &self.v);
        fl(o, &self.n);
        fl(o, &self.uv);
        fl(o, &self.t);
        ix(o, &self.vt);
        ix(o, &self.nt);
        ix(o, &self.uvt);
        ix(o, &self.tt);
        o.extend_from_slice(&(self.custom.len() as u64).to_le_bytes());
        for (n, c) in &self.custom {
            o.extend_from_slice(&(n.len() as u64).to_le_bytes());
            o.extend_from_slice(n.as_bytes());
            match c {
                CanonCustom::Index(a) => {
                    o.push(0);
                    ix(o, &Some(a.clone()));
                }
                CanonCustom::Int(a) => {
                    o.push(1);
                    ix(o, &Some(a.clone()));
                }
                CanonCustom::Float(a) => {
                    o.push(2);
                    fl(o, &Some(a.iter().map(|x| [*x]).collect()));
                }
                CanonCustom::Rgba(a) => {
                    o.push(3);
                    fl(o, &Some(a.clone()));
                }
            }
        }
    }
    pub fn from_bytes(r: &mut Rd) -> Option<Self> {
        fn fl<const N: usize>(r: &mut Rd) -> Option<Option<Vec<[f64; N]>>> {
            let n = r.u64()?;
            if n == u64::MAX {
                return Some(None);
            }
            let mut a = Vec::new();
            for _ in 0..n {
                let mut x = [0.0; N];
                for x in &mut x {
                    *x = f64::from_bits(r.u64()?);
                }
                a.push(x);
            }
            Some(Some(a))
        }
        fn ix(r: &mut Rd) -> Option<Option<Vec<u64>>> {
            let n = r.u64()?;
            if n == u64::MAX {
                return Some(None);
            }
            (0..n).map(|_| r.u64()).collect::<Option<Vec<_>>>().map(Some)
        }
        let mut c = Canon { v: fl(r)?, n: fl(r)?, uv: fl(r)?, t: fl(r)?, vt: ix(r)?, nt: ix(r)?, uvt: ix(r)?, tt: ix(r)?, custom: vec![], mag: 0.0 };
        let n = r.u64()?;
        for _ in 0..n {
            let len = r.u64()? as usize;
            let name = String::from_utf8(r.take(len)?.to_vec()).ok()?;
            let d = match r.u8()? {
                0 => CanonCustom::Index(ix(r)??),
                1 => CanonCustom::Int(ix(r)??),
                2 => CanonCustom::Float(fl::<1>(r)??.into_iter().map(|x| x[0]).collect()),
                _ => CanonCustom::Rgba(fl(r)??),
            };
            c.custom.push((name, d));
        }
        Some(c)
    }
}
/// Decodes all meshes of a file strictly.
pub fn decode(b: &[u8]) -> Result<(Vec<(String, Canon)>, RFile), String> {
    let Some((file, used)) = parse(b) else { return Err("the file is cut short or is not a TMF file".to_owned()) };
    if used != b.len() {
        return Err(format!("the file is followed by {} bytes", b.len() - used));
    }
    let old = file.old();
    let mut res = Vec::new();
    for (k, m) in file.meshes.iter().enumerate() {
        let mut c = Canon::default();
        for (i, s) in m.segs.iter().enumerate() {
            if s.comp != 0 && parse_payload(s, old).map_or(true, |p| !matches!(p, Payload::Unknown(_))) {
                return Err(format!("segment {i} of mesh {k} is compressed"));
            }
            let p = parse_payload(s, old).ok_or_else(|| format!("segment {i} (type {}) of mesh {k} is malformed", s.ty))?;
            c.apply(&p).ok_or_else(|| format!("segment {i} of mesh {k} has an invalid name"))?;
        }
        res.push((String::from_utf8(m.name.clone()).map_err(|_| format!("the name of mesh {k} is invalid"))?, c));
    }
    Ok((res, file))
}
