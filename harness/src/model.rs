//! Plain model of a mesh, generators of valid meshes and precisions, and the bounds the library promises.
use crate::engine::*;
use tmf::*;
pub type F = FloatType;
pub type I = IndexType;
pub type V2 = (F, F);
pub type V3 = (F, F, F);
pub type V4 = (F, F, F, F);
/// A float of the default build, which both single and double precision can hold; in builds with double precision, any.
pub fn f(x: f64) -> F {
    x as F
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cd {
    Index(Vec<I>, usize),
    Int(Vec<I>, usize),
    Float(Vec<F>, F),
    Rgba(Vec<V4>, F),
}
impl Cd {
    pub fn kind(&self) -> &'static str {
        match self {
            Cd::Index(..) => "index",
            Cd::Int(..) => "integer",
            Cd::Float(..) => "float",
            Cd::Rgba(..) => "rgba",
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Cd::Index(a, _) | Cd::Int(a, _) => a.len(),
            Cd::Float(a, _) => a.len(),
            Cd::Rgba(a, _) => a.len(),
        }
    }
    pub fn to_tmf(&self) -> CustomData {
        match self {
            Cd::Index(a, m) => CustomData::CustomIndex(a.clone().into(), *m),
            Cd::Int(a, m) => CustomData::CustomIntiger(a.clone().into(), *m),
            Cd::Float(a, p) => CustomData::CustomFloat(a.clone().into(), *p),
            Cd::Rgba(a, p) => CustomData::CustomColorRGBA(a.clone().into(), *p),
        }
    }
    pub fn from_tmf(d: &CustomData) -> Self {
        // Through the accessors, all of which must agree on the kind.
        match (d.as_index(), d.as_intiger(), d.as_float(), d.as_color_rgba()) {
            (Some((a, m)), None, None, None) => Cd::Index(a.to_vec(), m),
            (None, Some((a, m)), None, None) => Cd::Int(a.to_vec(), m),
            (None, None, Some((a, p)), None) => Cd::Float(a.to_vec(), p),
            (None, None, None, Some((a, p))) => Cd::Rgba(a.to_vec(), p),
            _ => panic!("custom data is of several kinds or of none"),
        }
    }
}
thread_local! {
    static WEAR: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Equal bit by bit. For numbers and tuples of numbers of one size, which have no padding.
fn identical<T: Copy>(a: &[T], b: &[T]) -> bool {
    fn bytes<T: Copy>(a: &[T]) -> &[u8] {
        unsafe { std::slice::from_raw_parts(a.as_ptr() as *const u8, std::mem::size_of_val(a)) }
    }
    bytes(a) == bytes(b)
}
/// Decides the histories of meshes made on this thread; 0 for none.
pub fn set_wear(seed: u64) {
    WEAR.with(|w| w.set(if seed == 0 { 0 } else { mix(seed).max(1) }));
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Md {
    pub v: Option<Vec<V3>>,
    pub n: Option<Vec<V3>>,
    pub uv: Option<Vec<V2>>,
    pub t: Option<Vec<(V3, F)>>,
    pub vt: Option<Vec<I>>,
    pub nt: Option<Vec<I>>,
    pub uvt: Option<Vec<I>>,
    pub tt: Option<Vec<I>>,
    pub custom: Vec<(String, Cd)>,
}
impl Md {
    /// This mesh, made at once or, as the case's first choice says, in the course of a random history.
    pub fn to_tmf(&self) -> TMFMesh {
        match WEAR.with(|w| w.get()) {
            0 => self.fresh(),
            w => {
                WEAR.with(|c| c.set(mix(w).max(1)));
                self.worn(&mut Src::random(w, Vec::new()))
            }
        }
    }
    /// Whether all indices are those of elements
    fn in_range(t: &TMFMesh) -> bool {
        let ok = |a: Option<&[I]>, n: Option<usize>| a.map_or(true, |a| a.iter().all(|i| (*i as u64) < n.unwrap_or(0) as u64));
        ok(t.get_vertex_triangles(), t.get_vertices().map(|a| a.len()))
            && ok(t.get_normal_triangles(), t.get_normals().map(|a| a.len()))
            && ok(t.get_uv_triangles(), t.get_uvs().map(|a| a.len()))
            && ok(t.get_tangent_triangles(), t.get_tangents().map(|a| a.len()))
    }
    /// Makes this mesh bit by bit, and uses it in between.
    fn worn(&self, s: &mut Src) -> TMFMesh {
        let mut t = if s.bool() { TMFMesh::empty() } else { TMFMesh::default() };
        let big = self.elements() > 3000;
        let odd = s.chance(1, 4);
        macro_rules! used {
            () => {
                let mut some = 3;
                while some > 0 && s.bool() {
                    some -= 1;
                    let kind = s.draw(9);
                    if big && (4..9).contains(&kind) {
                        continue;
                    }
                    // Whatever goes wrong here is another check's concern
                    let _ = match kind {
                        0 => {
                            t = t.clone();
                            Ok(())
                        }
                        1 => no_panic("", || drop(t.verify())),
                        2 => no_panic("", || drop((t.get_vertex_buffer(), t.get_normal_buffer(), t.get_uv_buffer()))),
                        3 => no_panic("", || drop(t.lookup_custom_data("z").is_some())),
                        4 | 5 if Self::in_range(&t) => no_panic("", || drop(t.write_tmf_one(&mut std::io::sink(), &TMFPrecisionInfo::default(), "m"))),
                        6 if Self::in_range(&t) => no_panic("", || drop(t.write_obj_one(&mut std::io::sink(), "m"))),
                        7 if Self::in_range(&t) => no_panic("", || t.reorder_data()),
                        8 if Self::in_range(&t) => {
                            let lens: Vec<usize> = [t.get_vertex_triangles(), t.get_normal_triangles(), t.get_uv_triangles(), t.get_tangent_triangles()].into_iter().flatten().map(|a| a.len()).collect();
                            if lens.windows(2).all(|w| w[0] == w[1]) {
                                no_panic("", || t.unify_index_data())
                            } else {
                                Ok(())
                            }
                        }
                        9 if odd => no_panic("", || t.normalize()),
                        _ => Ok(()),
                    };
                }
            };
        }
        macro_rules! arrays {
            ($do:ident) => {
                $do!(0, v, get_vertices, set_vertices, append_vertices);
                $do!(1, n, get_normals, set_normals, append_normals);
                $do!(2, uv, get_uvs, set_uvs, append_uvs);
                $do!(3, t, get_tangents, set_tangents, append_tangents);
                $do!(4, vt, get_vertex_triangles, set_vertex_triangles, append_vertex_triangles);
                $do!(5, nt, get_normal_triangles, set_normal_triangles, append_normal_triangles);
                $do!(6, uvt, get_uv_triangles, set_uv_triangles, append_uv_triangles);
                $do!(7, tt, get_tangent_triangles, set_tangent_triangles, append_tangent_triangles);
            };
        }
        // Equal cuts keep index arrays of one length so
        let cut = s.draw(1000);
        let own = s.bool();
        for turn in 0..2usize {
            // In any order
            let (first, by) = (s.usize(0, 7), s.pick(&[1usize, 3, 5, 7]));
            for k in 0..8 {
                let at = (k * by + first) % 8;
                macro_rules! step {
                    ($i:expr, $f:ident, $get:ident, $set:ident, $append:ident) => {
                        if let (true, Some(want)) = (at == $i, &self.$f) {
                            if turn == 0 {
                                let cut = if own { s.draw(1000) } else { cut };
                                let n = match s.draw(3) {
                                    0 if own => want.len(),
                                    1 if own => 0,
                                    _ => (want.len() / 3 * cut as usize / 1000 * 3).min(want.len()),
                                };
                                match s.draw(4) {
                                    0 if own => (),
                                    1 if odd => drop(t.$set(want.iter().rev().copied().collect::<Vec<_>>())),
                                    2 => {
                                        // With room for more
                                        let mut a = want[..n].to_vec();
                                        a.reserve_exact(want.len() + 5);
                                        t.$set(a);
                                    }
                                    3 => t.$append(&want[..n]),
                                    _ => drop(t.$set(&want[..n])),
                                }
                            } else {
                                let have = t.$get().map(|a| a.len());
                                let begun = t.$get().map_or(true, |a| a.len() <= want.len() && identical(a, &want[..a.len()]));
                                if begun && !s.chance(1, 4) {
                                    if have != Some(want.len()) {
                                        t.$append(&want[have.unwrap_or(0)..]);
                                    }
                                } else {
                                    t.$set(&want[..]);
                                }
                            }
                            used!();
                        }
                    };
                }
                arrays!(step);
                if k % 4 == 0 {
                    let n = self.custom.len();
                    let parts = turn * 2 + k / 4;
                    for (name, d) in &self.custom[n * parts / 4..n * (parts + 1) / 4] {
                        t.add_custom_data(d.to_tmf(), name).expect("adding custom data with a valid name");
                        if n < 100 {
                            used!();
                        }
                    }
                }
            }
        }
        // What using the mesh changed after all, and what one pass left out
        macro_rules! settle {
            ($i:expr, $f:ident, $get:ident, $set:ident, $append:ident) => {
                if let Some(want) = &self.$f {
                    if !t.$get().map_or(false, |a| identical(a, want)) {
                        t.$set(&want[..]);
                    }
                }
            };
        }
        arrays!(settle);
        t
    }
    /// This mesh, each array of which is set once
    pub fn fresh(&self) -> TMFMesh {
        let mut m = TMFMesh::empty();
        if let Some(a) = &self.v {
            m.set_vertices(a.clone());
        }
        if let Some(a) = &self.n {
            m.set_normals(a.clone());
        }
        if let Some(a) = &self.uv {
            m.set_uvs(a.clone());
        }
        if let Some(a) = &self.t {
            m.set_tangents(a.clone());
        }
        if let Some(a) = &self.vt {
            m.set_vertex_triangles(a.clone());
        }
        if let Some(a) = &self.nt {
            m.set_normal_triangles(a.clone());
        }
        if let Some(a) = &self.uvt {
            m.set_uv_triangles(a.clone());
        }
        if let Some(a) = &self.tt {
            m.set_tangent_triangles(a.clone());
        }
        for (name, d) in &self.custom {
            m.add_custom_data(d.to_tmf(), name).expect("adding custom data with a valid name");
        }
        m
    }
    /// What the getters of *m* give. Custom data is looked up under *names*.
    pub fn from_tmf<S: AsRef<str>>(m: &TMFMesh, names: &[S]) -> Self {
        Md {
            v: m.get_vertices().map(|a| a.to_vec()),
            n: m.get_normals().map(|a| a.to_vec()),
            uv: m.get_uvs().map(|a| a.to_vec()),
            t: m.get_tangents().map(|a| a.to_vec()),
            vt: m.get_vertex_triangles().map(|a| a.to_vec()),
            nt: m.get_normal_triangles().map(|a| a.to_vec()),
            uvt: m.get_uv_triangles().map(|a| a.to_vec()),
            tt: m.get_tangent_triangles().map(|a| a.to_vec()),
            custom: names
                .iter()
                .filter_map(|n| m.lookup_custom_data(n.as_ref()).map(|d| (n.as_ref().to_owned(), Cd::from_tmf(d))))
                .collect(),
        }
    }
    pub fn names(&self) -> Vec<String> {
        let mut names: Vec<String> = Vec::new();
        for (n, _) in &self.custom {
            if !names.contains(n) {
                names.push(n.clone());
            }
        }
        names
    }
    pub fn elements(&self) -> usize {
        fn l<T>(a: &Option<Vec<T>>) -> usize {
            a.as_ref().map_or(0, |a| a.len())
        }
        l(&self.v) + l(&self.n) + l(&self.uv) + l(&self.t) + l(&self.vt) + l(&self.nt) + l(&self.uvt) + l(&self.tt) + self.custom.iter().map(|c| c.1.len()).sum::<usize>()
    }
    pub fn brief(&self) -> String {
        fn o<T: std::fmt::Debug>(name: &str, a: &Option<Vec<T>>) -> String {
            match a {
                None => String::new(),
                Some(a) if a.len() <= 12 => format!(" {name}={a:?}"),
                Some(a) => format!(" {name}=({} items){:?}..", a.len(), &a[..8]),
            }
        }
        let mut s = String::from("mesh{");
        s += &o("v", &self.v);
        s += &o("n", &self.n);
        s += &o("uv", &self.uv);
        s += &o("t", &self.t);
        s += &o("vt", &self.vt);
        s += &o("nt", &self.nt);
        s += &o("uvt", &self.uvt);
        s += &o("tt", &self.tt);
        for (name, d) in &self.custom {
            let short: String = name.chars().take(20).collect();
            s += &format!(" {short:?}({} bytes):", name.len());
            s += &match d {
                Cd::Index(a, m) => o(&format!("index,max {m}"), &Some(a.clone())),
                Cd::Int(a, m) => o(&format!("integer,max {m}"), &Some(a.clone())),
                Cd::Float(a, p) => o(&format!("float,prec {p}"), &Some(a.clone())),
                Cd::Rgba(a, p) => o(&format!("rgba,prec {p}"), &Some(a.clone())),
            };
        }
        s + " }"
    }
    /// Length of the shortest edge of a complete triangle that is not zero, or 0.1 if there is none.
    /// Whether any edge has a length.
    pub fn has_edge(&self) -> bool {
        let (Some(v), Some(t)) = (&self.v, &self.vt) else { return false };
        t.chunks_exact(3).any(|c| (0..3).any(|k| v[c[k] as usize] != v[c[(k + 1) % 3] as usize]))
    }
    pub fn shortest_edge(&self) -> f64 {
        let (Some(v), Some(t)) = (&self.v, &self.vt) else { return 0.1 };
        let mut best = f64::INFINITY;
        for c in t.chunks_exact(3) {
            for (a, b) in [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])] {
                let d = dist(v[a as usize], v[b as usize]);
                if d > 0.0 {
                    best = best.min(d);
                }
            }
        }
        if best.is_finite() {
            best
        } else {
            0.1
        }
    }
}
pub fn dist(a: V3, b: V3) -> f64 {
    let (dx, dy, dz) = (a.0 as f64 - b.0 as f64, a.1 as f64 - b.1 as f64, a.2 as f64 - b.2 as f64);
    (dx * dx + dy * dy + dz * dz).sqrt()
}
pub fn len3(a: V3) -> f64 {
    dist(a, (0.0, 0.0, 0.0))
}
/// Angle in radians, accurate for small and big angles.
pub fn angle(a: V3, b: V3) -> f64 {
    let (a, b) = ((a.0 as f64, a.1 as f64, a.2 as f64), (b.0 as f64, b.1 as f64, b.2 as f64));
    let c = (a.1 * b.2 - a.2 * b.1, a.2 * b.0 - a.0 * b.2, a.0 * b.1 - a.1 * b.0);
    let cross = (c.0 * c.0 + c.1 * c.1 + c.2 * c.2).sqrt();
    cross.atan2(a.0 * b.0 + a.1 * b.1 + a.2 * b.2)
}
/// Requested precisions.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub vertex: F,
    /// Angle of normals, and if it is in degrees
    pub normal: (F, bool),
    pub tangent: (F, bool),
    pub uv: (f32, f32),
}
impl Spec {
    pub fn default_spec() -> Self {
        Spec { vertex: 0.1, normal: (1.0, true), tangent: (1.0, true), uv: (1024.0, 0.1) }
    }
    pub fn to_tmf(&self) -> TMFPrecisionInfo {
        let d = Spec::default_spec();
        let mut p = TMFPrecisionInfo::default();
        // What is asked for by default is asked for by leaving it as it is
        if self.vertex != d.vertex {
            p.vertex_precision = VertexPrecisionMode(self.vertex);
        }
        if self.normal != d.normal {
            p.normal_precision = if self.normal.1 { NormalPrecisionMode::from_deg_dev(self.normal.0) } else { NormalPrecisionMode::from_rad_dev(self.normal.0) };
        }
        if self.uv != d.uv {
            p.uv_prec = UvPrecisionMode::form_texture_resolution(self.uv.0, self.uv.1);
        }
        if self.tangent != d.tangent {
            p.tangent_prec = if self.tangent.1 { TangentPrecisionMode::from_deg_dev(self.tangent.0) } else { TangentPrecisionMode::from_rad_dev(self.tangent.0) };
        }
        p
    }
    pub fn rad(a: (F, bool)) -> f64 {
        if a.1 {
            (a.0 as f64).to_radians()
        } else {
            a.0 as f64
        }
    }
    /// Bits needed so that the angle between neighbouring values is the requested one
    pub fn angle_bits(a: (F, bool)) -> u32 {
        bits_for(std::f64::consts::FRAC_PI_2 / Self::rad(a)).clamp(1, 63)
    }
    pub fn uv_bits(&self) -> u32 {
        bits_for(self.uv.0 as f64 / self.uv.1 as f64).min(63)
    }
}
pub fn bits_for(ratio: f64) -> u32 {
    if ratio.is_nan() || ratio <= 1.0 {
        0
    } else {
        ratio.log2().ceil() as u32
    }
}
// ---------------------------------------------------------------- generators
pub fn gen_angle(s: &mut Src) -> (F, bool) {
    let deg = match s.weighted(&[4, 4, 3, 3, 2, 2]) {
        0 => s.pick(&[1.0, 0.5, 5.0, 0.1, 10.0, 2.0]),
        // Just around a power of two of steps
        1 => {
            let b = s.range(1, 12);
            let m = s.pick(&[1.0, 0.999, 1.001, 1.5, 1.99, 0.51]);
            (90.0 / (1u64 << b) as f64 * m).min(90.0)
        }
        2 => 0.02 + s.unit() * 2.0,
        3 => 1.0 + s.unit() * 89.0,
        4 => 0.005 + s.unit() * 0.02,
        // Finer than floats are
        _ => {
            let b = s.range(13, 70);
            90.0 * 0.5f64.powi(b as i32) * s.pick(&[1.0, 0.999, 1.5])
        }
    };
    if s.bool() {
        (f(deg.to_radians()).min(f(std::f64::consts::FRAC_PI_2)), false)
    } else {
        (f(deg), true)
    }
}
pub fn gen_uv_prec(s: &mut Src) -> (f32, f32) {
    match s.weighted(&[2, 3, 3, 1, 1]) {
        0 => (1024.0, 0.1),
        4 => {
            let b = s.range(15, 70) as i32;
            let k = s.range(0, b as u64) as i32;
            (2f32.powi(k), 0.5f32.powi(b - k) * s.pick(&[1.0f32, 0.75]))
        }
        1 => (s.pick(&[1.0f32, 2.0, 16.0, 64.0, 256.0, 512.0, 4096.0, 8192.0]), s.pick(&[1.0f32, 0.5, 0.25, 0.1, 0.01, 2.0, 0.75])),
        2 => {
            let b = s.range(1, 14);
            let res = (1u64 << b) as f32;
            (res, s.pick(&[1.0f32, 0.999, 1.001, 0.6, 1.9, 0.51]))
        }
        _ => (s.range(1, 4000) as f32, s.range(1, 400) as f32 / 100.0),
    }
}
pub fn gen_vertex_prec(s: &mut Src) -> F {
    match s.weighted(&[6, 8, 4, 1]) {
        0 => f(0.1),
        3 => f(0.5f64.powi(s.range(10, 70) as i32)),
        1 => f(s.pick(&[0.5, 0.25, 0.01, 0.025, 0.75, 1.0, 0.001, 0.9])),
        _ => f(0.002 + s.unit() * 0.99),
    }
}
pub fn gen_spec(s: &mut Src) -> Spec {
    if s.chance(1, 4) {
        Spec::default_spec()
    } else {
        Spec { vertex: gen_vertex_prec(s), normal: gen_angle(s), tangent: gen_angle(s), uv: gen_uv_prec(s) }
    }
}
/// A count, favouring small ones and powers of two.
pub fn gen_count(s: &mut Src, max: usize) -> usize {
    let max = max.max(1);
    let n = match s.weighted(&[5, 6, 4, 2]) {
        0 => s.usize(0, 5),
        1 => s.usize(1, 40),
        2 => {
            let top = usize::BITS - 1 - max.leading_zeros();
            let p = 1usize << s.draw(top as u64);
            (p + s.usize(0, 2)).saturating_sub(1)
        }
        _ => s.usize(0, max),
    };
    n.min(max)
}
pub fn gen_verts(s: &mut Src, n: usize) -> Vec<V3> {
    let style = s.weighted(&[4, 3, 2, 2, 2, 2, 2, 2, 1]);
    let scale = if s.chance(1, 16) { s.pick(&[1e-12, 1e-20, 1e-25, 1e-30, 1e12, 1e20, 1e30]) } else { s.pick(&[1.0, 10.0, 0.01, 100.0, 1000.0, 0.001, 12345.678, 1e5]) };
    let aniso = if s.chance(1, 3) { (s.pick(&[1.0, 0.01, 30.0]), s.pick(&[1.0, 0.02, 50.0]), s.pick(&[1.0, 0.001, 20.0])) } else { (1.0, 1.0, 1.0) };
    let off = if s.chance(1, 2) {
        let m = s.pick(&[1.0, 3.0, 0.5, 20.0, -2.0, -10.0]) * scale;
        (m * s.signed(), m * s.signed(), m * s.signed())
    } else if std::mem::size_of::<F>() == 8 && s.bool() {
        // Far from the origin: single precision would not tell the vertices apart
        let m = s.pick(&[1e5, 1e8, 1e10]) * scale;
        (m * s.signed(), m * s.signed(), m * s.signed())
    } else {
        (0.0, 0.0, 0.0)
    };
    let fix = s.draw(2);
    let dup = s.range(1, 8) as f64;
    let mut res = s.array(n, |s, i| {
        let p = match style {
            // Box
            0 => (s.signed(), s.signed(), s.signed()),
            // All coordinates of one sign
            1 => (s.unit(), s.unit(), s.unit()),
            // Grid
            2 => ((s.draw(8) as f64) / 4.0 - 1.0, (s.draw(8) as f64) / 4.0 - 1.0, (s.draw(8) as f64) / 4.0 - 1.0),
            // Flat
            3 => {
                let (a, b) = (s.signed(), s.signed());
                match fix {
                    0 => (0.0, a, b),
                    1 => (a, 0.0, b),
                    _ => (a, b, 0.0),
                }
            }
            // On a line
            4 => {
                let a = s.signed();
                match fix {
                    0 => (a, a, a),
                    1 => (a, 0.0, 0.0),
                    _ => (0.0, 0.0, a),
                }
            }
            // Few different points
            5 => {
                let k = s.draw(dup as u64) as f64 / dup;
                (k, 1.0 - k, k * k)
            }
            // Near first, then far: pays to be split
            6 => {
                let near = i * 10 < n * 8;
                let m = if near { 0.001 } else { 1.0 };
                (s.signed() * m, s.signed() * m, s.signed() * m)
            }
            // Sphere
            7 => {
                let z = s.signed();
                let a = s.unit() * std::f64::consts::TAU;
                let r = (1.0 - z * z).max(0.0).sqrt();
                (r * a.cos(), r * a.sin(), z)
            }
            // All the same
            _ => (0.25, 0.5, -0.75),
        };
        (f(p.0 * scale * aniso.0 + off.0), f(p.1 * scale * aniso.1 + off.1), f(p.2 * scale * aniso.2 + off.2))
    });
    // Sometimes the last or first one is far off
    if n > 0 && s.chance(1, 12) {
        let k = if s.bool() { n - 1 } else { 0 };
        res[k].1 = f(res[k].1 as f64 + 7.0 * scale);
    }
    res
}
pub fn unit_vec(z: f64, a: f64) -> V3 {
    let r = (1.0 - z * z).max(0.0).sqrt();
    (f(r * a.cos()), f(r * a.sin()), f(z))
}
pub fn gen_normal(s: &mut Src) -> V3 {
    use std::f64::consts::*;
    match s.weighted(&[6, 2, 3, 3, 3, 2]) {
        0 => {
            let z = s.signed();
            let a = s.unit() * TAU;
            unit_vec(z, a)
        }
        1 => s.pick(&[
            (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, -1.0),
            (1.0, -0.0, -0.0), (-0.0, 1.0, 0.0), (-0.0, -0.0, 1.0),
        ]),
        // Near an axis or a coordinate plane
        2 => {
            let e = s.pick(&[1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05]) * s.signed();
            let e2 = s.pick(&[1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05]) * s.signed();
            let q = s.draw(3) as f64 * FRAC_PI_2;
            unit_vec(e, q + e2)
        }
        // In a coordinate plane
        3 => {
            let a = s.unit() * TAU;
            match s.draw(2) {
                0 => unit_vec(0.0, a),
                1 => {
                    let p = unit_vec(0.0, a);
                    (p.0, 0.0, p.1)
                }
                _ => {
                    let p = unit_vec(0.0, a);
                    (0.0, p.0, p.1)
                }
            }
        }
        // Around the limits between quantised values
        4 => {
            let b = s.range(1, 12);
            let n = ((1u64 << b) - 1) as f64;
            let k = s.draw((1 << b) - 1) as f64;
            let kz = s.draw((1 << b) - 1) as f64;
            let d = s.pick(&[0.0, 0.5, 0.499, 0.501, 0.25, 0.98]);
            let a = ((k + d) / n).min(1.0) * FRAC_PI_2 + s.draw(3) as f64 * FRAC_PI_2;
            let z = ((kz + s.pick(&[0.0, 0.5, 0.499, 0.501, 0.98])) / n).min(1.0);
            let z = if s.bool() { -z } else { z };
            unit_vec(z, a)
        }
        // Around the poles
        _ => {
            let z = 1.0 - s.pick(&[0.1, 0.05, 0.01, 1e-3, 1e-4, 1e-6]) * s.unit();
            let z = if s.bool() { -z } else { z };
            let a = s.unit() * TAU;
            unit_vec(z, a)
        }
    }
}
pub fn gen_uv(s: &mut Src) -> F {
    match s.weighted(&[6, 2, 3, 2]) {
        0 => f(s.unit()),
        1 => s.pick(&[0.0, 1.0, 0.5]),
        2 => {
            let b = s.range(1, 14);
            let n = ((1u64 << b) - 1) as f64;
            let k = s.draw((1 << b) - 1) as f64;
            f(((k + s.pick(&[0.0, 0.5, 0.499, 0.501, 0.99])) / n).min(1.0))
        }
        _ => {
            let e = s.pick(&[1e-7, 1e-5, 1e-3, 0.01]);
            if s.bool() {
                f(1.0 - e)
            } else {
                f(e)
            }
        }
    }
}
/// *len* indices below *n*
pub fn gen_indices(s: &mut Src, len: usize, n: usize) -> Vec<I> {
    if n == 0 {
        return vec![];
    }
    let top = n as u64 - 1;
    let style = s.weighted(&[5, 3, 3, 2, 2, 2, 2, 2]);
    let a = s.draw(top);
    let w = s.pick(&[1u64, 2, 7, 16, 63]);
    let at = s.draw(8) as usize;
    s.array(len, |s, i| {
        let i64 = i as u64;
        let v = match style {
            0 => s.draw(top),
            // In order
            1 => i64 % n as u64,
            // Low ones, then high ones
            2 => {
                if i * 8 < len * at {
                    s.draw(top.min(w))
                } else {
                    s.draw(top)
                }
            }
            // High ones, then low ones
            3 => {
                if i * 8 < len * at {
                    top - s.draw(top.min(w))
                } else {
                    s.draw(top)
                }
            }
            // Narrow range
            4 => (a + s.draw(w)).min(top),
            // Descending
            5 => top - i64 % n as u64,
            // Local
            6 => ((i64 / 3) * 2 + s.draw(w)) % n as u64,
            // Constant
            _ => a,
        };
        v as I
    })
}
/// Changes an index array of an array of *n* elements a little, so that it is easily taken for what it was.
pub fn nearly_equal(s: &mut Src, t: &mut [I], n: usize) {
    let Some(last) = t.len().checked_sub(1) else { return };
    match s.draw(5) {
        0 => {
            let k = s.pick(&[0, t.len() / 2, last]);
            t[k] = s.draw(n as u64 - 1) as I;
        }
        1 => {
            let k = s.usize(0, last);
            t[k] = s.draw(n as u64 - 1) as I;
        }
        2 => t.swap(s.usize(0, last), s.usize(0, last)),
        3 => {
            let (a, b) = (s.usize(0, last), s.usize(0, last));
            t[a.min(b)..=a.max(b)].reverse();
        }
        4 => {
            let (a, b) = (s.usize(0, last), s.usize(0, last));
            t[a.min(b)..=a.max(b)].rotate_left(1);
        }
        _ => {
            // The sum stays
            let (a, b) = (s.usize(0, last), s.usize(0, last));
            if a != b && t[a] > 0 && (t[b] as usize) + 1 < n {
                t[a] -= 1;
                t[b] += 1;
            }
        }
    }
}
#[derive(Clone)]
pub struct Opts {
    pub max_elems: usize,
    pub max_indices: usize,
    pub tangents: bool,
    pub custom: bool,
    /// All index arrays have the same length
    pub equal_len: bool,
    /// Index arrays may have any length, not only a multiple of 3
    pub any_len: bool,
    pub empty_arrays: bool,
    /// Always has vertices and triangles of them
    pub faces: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_elems: 300, max_indices: 600, tangents: true, custom: true, equal_len: false, any_len: true, empty_arrays: true, faces: false }
    }
}
fn gen_index_len(s: &mut Src, o: &Opts) -> usize {
    let n = gen_count(s, o.max_indices);
    if o.any_len && s.chance(1, 6) {
        n
    } else {
        n / 3 * 3
    }
}
const NAME_CHARS: &[char] = &['a', 'A', 'b', 'Z', '0', ' ', '_', '.', '/', '\\', '"', '\t', '\n', '\r', '\0', '\u{7f}', 'é', 'É', '\u{301}', 'ß', '日', '\u{a0}', '\u{2028}', '\u{feff}', '🦀'];
/// Another name which differs little.
pub fn near_name(s: &mut Src, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    let at = match s.draw(2) {
        0 => 0,
        1 => c.len().saturating_sub(1),
        _ => s.usize(0, c.len().saturating_sub(1)),
    };
    match s.draw(6) {
        0 if !c.is_empty() => {
            // Upper and lower case
            let other = |c: char| if c.is_lowercase() { c.to_uppercase().next() } else { c.to_lowercase().next() }.unwrap_or(c);
            if s.bool() {
                c[at] = other(c[at]);
            } else {
                c = c.into_iter().map(other).collect();
            }
        }
        1 if !c.is_empty() => c[at] = s.pick(NAME_CHARS),
        2 if !c.is_empty() => {
            c.remove(at);
        }
        3 => c.insert(at, s.pick(NAME_CHARS)),
        4 => c.push(s.pick(NAME_CHARS)),
        5 if c.len() >= 2 => {
            let to = s.usize(0, c.len() - 1);
            c.swap(at, to);
        }
        _ => c.reverse(),
    }
    c.into_iter().collect()
}
/// Cuts a name to a number of bytes.
fn cut_name(mut name: String, max: usize) -> String {
    while name.len() > max {
        name.pop();
    }
    name
}
fn name_len(s: &mut Src, max: usize) -> usize {
    let bits = s.range(0, (usize::BITS - max.leading_zeros()) as u64);
    let n = (1usize << bits).saturating_add_signed(s.range(0, 4) as isize - 2);
    n.min(max)
}
fn long_name(s: &mut Src, n: usize) -> String {
    let c = s.pick(&["y", "y", "é", "日", "🦀"]);
    let mut name = c.repeat(n / c.len()) + &"y".repeat(n % c.len());
    // The ends may be something which could be trimmed
    if s.bool() && n > 0 && name.is_char_boundary(n - 1) {
        name.pop();
        name.push(s.pick(&[' ', '\0', '\n', '\t', '_', '.']));
    }
    if s.chance(1, 4) && n > 1 && name.is_char_boundary(1) {
        name.replace_range(0..1, s.pick(&[" ", "\0", "\n", "\t", "#"]));
    }
    name
}
pub fn gen_name(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.pick(&["", "mesh", "Suzanne", "a", "Cube.001", "name with spaces"]).to_owned(),
        1 => {
            let n = s.usize(0, 12);
            s.array(n, |s, _| s.pick(NAME_CHARS)).into_iter().collect()
        }
        2 => {
            let n = s.usize(0, 300);
            long_name(s, n)
        }
        _ => {
            let n = match s.bool() {
                true => s.pick(&[254usize, 255, 256, 257, 1000, 4097, 8193, 32767, 32768, 40000, 65534, 65535]),
                false => name_len(s, 65535),
            };
            long_name(s, n)
        }
    }
}
pub fn gen_custom_name(s: &mut Src) -> String {
    match s.weighted(&[4, 4, 2]) {
        0 => s.pick(&["a", "b", "weights", "c"]).to_owned(),
        1 => {
            let n = s.usize(1, 10);
            cut_name(s.array(n, |s, _| s.pick(NAME_CHARS)).into_iter().collect(), 255)
        }
        _ => {
            let n = match s.bool() {
                true => s.pick(&[1usize, 2, 127, 128, 253, 254, 255]),
                false => name_len(s, 255).max(1),
            };
            long_name(s, n)
        }
    }
}
/// A name for custom data, which may be like one of the *others*.
pub fn gen_custom_name_near(s: &mut Src, others: &[String]) -> String {
    if others.is_empty() || s.chance(1, 2) {
        return gen_custom_name(s);
    }
    let k = s.usize(0, others.len() - 1);
    let name = if s.chance(1, 4) { others[k].clone() } else { cut_name(near_name(s, &others[k]), 255) };
    if name.is_empty() { "a".to_owned() } else { name }
}
pub fn gen_ints(s: &mut Src, n: usize) -> Vec<I> {
    let bits = s.range(0, I::BITS as u64) as u32;
    let top = if bits == 0 { 0 } else { ((1u128 << bits) - 1) as u64 };
    let base = if s.chance(1, 4) { s.draw(I::MAX as u64 / 2) } else { 0 };
    let mut a = s.array(n, |s, _| {
        let v = match s.draw(7) {
            0 => 0,
            1 => top,
            2 => top.saturating_sub(1),
            _ => s.draw(top),
        };
        (v.saturating_add(base)).min(I::MAX as u64) as I
    });
    if n > 0 && s.chance(1, 8) {
        let k = s.usize(0, n - 1);
        a[k] = s.pick(&[0u64, 1, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX as u64, 1 << 32, u64::MAX]).min(I::MAX as u64) as I;
    }
    a
}
pub fn gen_custom(s: &mut Src, max: usize) -> Cd {
    let n = gen_count(s, max);
    match s.draw(3) {
        k @ 0..=1 => {
            let a = gen_ints(s, n);
            let mut m = a.iter().copied().max().unwrap_or(0) as usize;
            if s.chance(1, 4) {
                m = m.saturating_add(s.pick(&[1usize, 2, 100, 1000]));
            }
            if k == 0 {
                Cd::Index(a, m)
            } else {
                Cd::Int(a, m)
            }
        }
        2 => {
            let scale: f64 = if s.chance(1, 16) { s.pick(&[1e-30, 1e-20, 1e20, 1e35, 1e38]) } else { s.pick(&[1.0, 10.0, 0.01, 1000.0, 1e5, 1.0]) };
            let off = s.pick(&[0.0, 0.0, 1.0, -3.0, 100.0]) * scale.min(1e35);
            let constant = s.chance(1, 8);
            let a = s.array(n, |s, _| f((if constant { off + scale } else { off + 3.4 * scale * s.signed() }).clamp(-f32::MAX as f64, f32::MAX as f64)));
            let p = s.pick(&[0.01, 0.001, 0.1, 0.5, 0.0001, 1.0, 0.26]);
            let p = if s.chance(1, 8) { p * 0.5f64.powi(s.range(1, 60) as i32) } else { p };
            // Rounding of subnormal precisions is left out.
            let p = f((if s.chance(1, 3) { p } else { p * scale }).max(1e-36));
            Cd::Float(a, p)
        }
        _ => {
            let a = s.array(n, |s, _| (gen_uv(s), gen_uv(s), gen_uv(s), gen_uv(s)));
            let p = match s.draw(4) {
                0 => 0.01,
                4 => 0.5f64.powi(s.range(14, 66) as i32),
                1 => 1.0 / (1u64 << s.range(1, 14)) as f64 * s.pick(&[1.0, 1.001, 0.999, 1.7]),
                2 => s.pick(&[1.0, 0.5, 0.1, 0.004, 0.0001, 2.0]),
                _ => 0.001 + s.unit() * 0.9,
            };
            Cd::Rgba(a, f(p))
        }
    }
}
pub fn gen_mesh(s: &mut Src, o: &Opts) -> Md {
    let mut m = Md::default();
    let shape = s.weighted(&[3, 3, 2, 2]);
    let len = if o.faces { gen_index_len(s, o).max(3) } else { gen_index_len(s, o) };
    let with = |s: &mut Src, num: u64| s.chance(num, 8);
    // Vertices
    if o.faces || with(s, 7) {
        let n = gen_count(s, o.max_elems);
        let n = if o.faces { n.max(1) } else { n };
        if n > 0 || o.empty_arrays {
            m.v = Some(gen_verts(s, n));
            if o.faces || with(s, 7) {
                m.vt = Some(gen_indices(s, len, n));
            }
        }
    }
    let share = |s: &mut Src, m: &Md, n: &mut usize, own_len: usize| -> Option<Vec<I>> {
        // Index arrays that are (nearly) equal to the one of vertices
        let vt = m.vt.clone()?;
        let need = vt.iter().copied().max().map_or(0, |x| x as usize + 1);
        match shape {
            0 => {
                *n = (*n).max(need);
                Some(vt)
            }
            1 if !vt.is_empty() => {
                *n = (*n).max(need).max(1);
                let mut t = vt;
                nearly_equal(s, &mut t, *n);
                if !o.equal_len && s.chance(1, 3) {
                    t.truncate(own_len.min(t.len()));
                }
                Some(t)
            }
            _ => None,
        }
    };
    for which in 0..3 {
        if which == 2 && !o.tangents {
            continue;
        }
        if !with(s, if which == 2 { 3 } else { 5 }) {
            continue;
        }
        let mut n = gen_count(s, o.max_elems);
        let own_len = if o.equal_len { len } else if s.chance(1, 4) { gen_index_len(s, o) } else { len };
        let tri = if with(s, 7) {
            match share(s, &m, &mut n, own_len) {
                Some(t) => Some(t),
                None => {
                    if o.equal_len && len > 0 {
                        n = n.max(1);
                    }
                    Some(gen_indices(s, own_len, n))
                }
            }
        } else {
            None
        };
        if n == 0 && !o.empty_arrays {
            continue;
        }
        match which {
            0 => {
                m.n = Some(s.array(n, |s, _| gen_normal(s)));
                m.nt = tri;
            }
            1 => {
                m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s))));
                m.uvt = tri;
            }
            _ => {
                m.t = Some(s.array(n, |s, _| (gen_normal(s), if s.bool() { -1.0 } else { 1.0 })));
                m.tt = tri;
            }
        }
    }
    if o.custom && s.chance(1, 3) {
        if s.chance(1, 8) {
            // Many of them, of different names
            let k = s.usize(5, 24);
            m.custom = s.array(k, |s, i| (if i == 0 { gen_custom_name(s) } else { format!("{i}k") }, gen_custom(s, 3)));
        } else {
            let k = s.usize(1, 4);
            for _ in 0..k {
                let name = gen_custom_name_near(s, &m.names());
                let d = gen_custom(s, 40);
                m.custom.push((name, d));
            }
        }
    }
    m
}
/// Lengths at which counters of 16, 17 or 18 bits run over
pub fn gen_long(s: &mut Src) -> usize {
    s.pick(&[65_535usize, 65_536, 65_537, 65_534, 66_000, 70_001, 99_999, 131_071, 131_072, 131_074, 196_608, 262_145])
}
/// Somewhere in an array, also where only a part of it is far from.
fn outlier_at(s: &mut Src, n: usize) -> usize {
    match s.draw(3) {
        0 => n - 1 - s.usize(0, 8.min(n - 1)),
        1 => s.usize(0, 8.min(n - 1)),
        2 => s.usize(0, n / 8) + n / 8 * 7 - usize::from(n % 8 == 0 && n > 7),
        _ => s.usize(0, n - 1),
    }
    .min(n - 1)
}
/// Long arrays, of which a few choices decide everything.
pub fn gen_long_mesh(s: &mut Src, custom: bool) -> Md {
    let kinds = s.range(1, 15);
    gen_long_kinds(s, kinds, custom)
}
/// *kinds*: bits for vertices, normals, UVs and tangents.
pub fn gen_long_kinds(s: &mut Src, kinds: u64, custom: bool) -> Md {
    use crate::engine::mix;
    let mut m = Md::default();
    let seed = s.draw(u32::MAX as u64);
    let r = |i: usize, k: u64| mix(seed ^ mix(i as u64 * 8 + k));
    let u = |i: usize, k: u64| (r(i, k) >> 40) as f64 / (1u64 << 24) as f64;
    let dir = |i: usize, k: u64| unit_vec(u(i, k) * 2.0 - 1.0, u(i, k + 1) * std::f64::consts::TAU);
    let tri = |s: &mut Src, n: usize| -> Option<Vec<I>> {
        if s.chance(1, 4) {
            return None;
        }
        let len = if s.chance(2, 3) { gen_long(s) } else { s.usize(0, 99) };
        let len = if s.chance(3, 4) { len / 3 * 3 } else { len };
        if n == 0 {
            return Some(vec![]);
        }
        let style = s.draw(4);
        let from = s.draw(n as u64 - 1) as usize;
        let mut t: Vec<I> = (0..len)
            .map(|i| match style {
                0 => r(i, 5) as usize % n,
                1 => i % n,
                2 => n - 1 - i % n,
                3 => (from + (r(i, 6) % 4) as usize) % n,
                _ => from,
            } as I)
            .collect();
        if !t.is_empty() && s.bool() {
            let k = s.usize(0, t.len() - 1);
            t[k] = (n - 1) as I;
        }
        Some(t)
    };
    let count = |s: &mut Src| if s.chance(2, 3) { gen_long(s) } else { s.usize(1, 40) };
    let same = s.bool();
    let all = count(s);
    for which in 0..4 {
        if kinds >> which & 1 == 0 {
            continue;
        }
        let n = if same { all } else { count(s) };
        let mut t = tri(s, n);
        if let (true, true, Some(v)) = (same, s.chance(1, 3), &m.vt) {
            // The index array of vertices, or one change away from it
            let mut v = v.clone();
            if s.bool() && !v.is_empty() {
                let k = s.usize(0, v.len() - 1);
                v[k] = s.draw(n as u64 - 1) as I;
            }
            t = Some(v);
        }
        match which {
            0 => {
                let mut v: Vec<V3> = (0..n).map(|i| (f(u(i, 0) * 8.0), f(u(i, 1)), f(u(i, 2) - 3.0))).collect();
                if s.bool() {
                    // One is far away from the others
                    let (k, by) = (outlier_at(s, n), f(s.pick(&[8.0, -8.0, 50.0, -1000.0])));
                    match s.draw(2) {
                        0 => v[k].0 = by,
                        1 => v[k].1 = by,
                        _ => v[k].2 = by,
                    }
                }
                m.v = Some(v);
                m.vt = t;
            }
            1 => {
                m.n = Some((0..n).map(|i| dir(i, 0)).collect());
                m.nt = t;
            }
            2 => {
                m.uv = Some((0..n).map(|i| (f(u(i, 0)), f(u(i, 1)))).collect());
                m.uvt = t;
            }
            _ => {
                m.t = Some((0..n).map(|i| (dir(i, 2), if r(i, 4) & 1 == 0 { 1.0 } else { -1.0 })).collect());
                m.tt = t;
            }
        }
    }
    if custom {
        let n = gen_long(s);
        let d = match s.draw(3) {
            0 => Cd::Index((0..n).map(|i| (r(i, 7) >> 46) as I).collect(), 1 << 18),
            1 => Cd::Int((0..n).map(|i| (r(i, 7) >> 60) as I).collect(), 15),
            2 => {
                let mut a: Vec<F> = (0..n).map(|i| f(u(i, 7))).collect();
                if s.bool() {
                    let k = outlier_at(s, n);
                    a[k] = f(s.pick(&[2.0, -2.0, 50.0, -1000.0]));
                }
                Cd::Float(a, f(s.pick(&[0.125, 0.01, 0.001])))
            }
            _ => Cd::Rgba((0..n).map(|i| (f(u(i, 4)), f(u(i, 5)), f(u(i, 6)), f(u(i, 7)))).collect(), 0.125),
        };
        m.custom.push(("long".to_owned(), d));
    }
    m
}
pub fn gen_meshes(s: &mut Src, o: &Opts, max: usize) -> Vec<(Md, String)> {
    if max >= 3 && s.chance(1, 40) {
        let k = s.usize(max, 70);
        let o = Opts { max_elems: o.max_elems.min(3), max_indices: o.max_indices.min(6), ..o.clone() };
        return s.array(k, |s, _| (gen_mesh(s, &o), gen_name(s)));
    }
    let k = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => s.usize(1, max.min(4)),
        _ => s.usize(0, max),
    };
    let mut list: Vec<(Md, String)> = Vec::with_capacity(k);
    for i in 0..k {
        let m = gen_mesh(s, o);
        let name = match i > 0 && s.chance(1, 4) {
            true => match s.bool() {
                true => list[i - 1].1.clone(),
                false => cut_name(near_name(s, &list[i - 1].1), 65535),
            },
            false => gen_name(s),
        };
        list.push((m, name));
    }
    list
}
pub fn write(meshes: &[(Md, String)], spec: &Spec) -> Result<Vec<u8>, String> {
    let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
    let mut out = Vec::new();
    TMFMesh::write_tmf(&list, &mut out, &spec.to_tmf()).map_err(|e| format!("writing a valid mesh failed: {e}"))?;
    Ok(out)
}
pub fn read(bytes: &[u8]) -> Result<Vec<(TMFMesh, String)>, String> {
    TMFMesh::read_tmf(&mut &bytes[..]).map_err(|e| format!("reading a file just written failed: {e}"))
}
pub fn brief_meshes(m: &[(Md, String)]) -> String {
    m.iter()
        .map(|(m, n)| {
            let short: String = n.chars().take(20).collect();
            format!("{short:?}({} bytes) {}", n.len(), m.brief())
        })
        .collect::<Vec<_>>()
        .join("; ")
}
/// Compares index arrays and presence and lengths of everything but custom data.
pub fn same_structure(a: &Md, b: &Md) -> Res {
    fn l<T>(what: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>) -> Res {
        match (a, b) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if a.len() == b.len() => Ok(()),
            _ => Err(format!("{what}: {:?} elements became {:?}", a.as_ref().map(|a| a.len()), b.as_ref().map(|b| b.len()))),
        }
    }
    fn e(what: &str, a: &Option<Vec<I>>, b: &Option<Vec<I>>) -> Res {
        l(what, a, b)?;
        if a != b {
            let (a, b) = (a.as_ref().unwrap(), b.as_ref().unwrap());
            let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap();
            return Err(format!("{what}: element {k} of {} was {} and became {}", a.len(), a[k], b[k]));
        }
        Ok(())
    }
    l("vertices", &a.v, &b.v)?;
    l("normals", &a.n, &b.n)?;
    l("uvs", &a.uv, &b.uv)?;
    l("tangents", &a.t, &b.t)?;
    e("vertex triangles", &a.vt, &b.vt)?;
    e("normal triangles", &a.nt, &b.nt)?;
    e("uv triangles", &a.uvt, &b.uvt)?;
    e("tangent triangles", &a.tt, &b.tt)
}
