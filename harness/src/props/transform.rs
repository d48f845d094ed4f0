//! C13, C14: the operations that lay data out anew keep the surface.
use crate::engine::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
pub static PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        rule: "an index array leaves out an element, uses one twice, or uses them out of order",
        assumptions: &["only valid meshes are reordered (indices within their arrays)", "element arrays whose index array is missing or empty are left alone"],
        arms: &[
            Arm::new("reorder", c13_reorder, 60_000, 3_000_000),
            Arm::new("tiny", c13_tiny, 60_000, 3_000_000),
            Arm::new("big", c13_big, 40, 2_000),
            Arm::new("sequence", c13_sequence, 15_000, 800_000),
        ],
    },
    Prop {
        id: "C14",
        rule: "two non-empty index arrays differ",
        assumptions: &["the index arrays present have the same length", "kinds of data without elements or without index array take no part"],
        arms: &[
            Arm::new("unify", c14_unify, 60_000, 3_000_000),
            Arm::new("tiny", c14_tiny, 80_000, 4_000_000),
            Arm::new("big", c14_big, 40, 2_000),
            Arm::new("saved", c14_saved, 10_000, 500_000),
        ],
    },
];
/// One kind of data: its elements as bit patterns, and its index array.
#[derive(Clone, PartialEq, Debug)]
struct Kind {
    data: Option<Vec<[u64; 4]>>,
    tri: Option<Vec<u64>>,
}
const NAMES: [&str; 4] = ["vertex", "normal", "UV", "tangent"];
fn kinds(m: &Md) -> [Kind; 4] {
    fn b(x: F) -> u64 {
        (x as f64).to_bits()
    }
    fn t(a: &Option<Vec<I>>) -> Option<Vec<u64>> {
        a.as_ref().map(|a| a.iter().map(|i| *i as u64).collect())
    }
    fn d<T>(a: &Option<Vec<T>>, f: impl Fn(&T) -> [u64; 4]) -> Option<Vec<[u64; 4]>> {
        a.as_ref().map(|a| a.iter().map(f).collect())
    }
    [
        Kind { data: d(&m.v, |p| [b(p.0), b(p.1), b(p.2), 0]), tri: t(&m.vt) },
        Kind { data: d(&m.n, |p| [b(p.0), b(p.1), b(p.2), 0]), tri: t(&m.nt) },
        Kind { data: d(&m.uv, |p| [b(p.0), b(p.1), 0, 0]), tri: t(&m.uvt) },
        Kind { data: d(&m.t, |p| [b(p.0 .0), b(p.0 .1), b(p.0 .2), b(p.1)]), tri: t(&m.tt) },
    ]
}
impl Kind {
    fn corners(&self) -> Result<Option<Vec<[u64; 4]>>, String> {
        let (Some(d), Some(t)) = (&self.data, &self.tri) else { return Ok(None) };
        t.iter().map(|i| d.get(*i as usize).copied().ok_or_else(|| format!("index {i} of {} elements", d.len()))).collect::<Result<_, _>>().map(Some)
    }
    /// Has both elements and an index array with something in it
    fn live(&self) -> bool {
        self.data.as_ref().map_or(false, |d| !d.is_empty()) && self.tri.as_ref().map_or(false, |t| !t.is_empty())
    }
}
fn same_corners(which: &str, a: &Kind, b: &Kind) -> Res {
    if a.data.is_some() != b.data.is_some() || a.tri.is_some() != b.tri.is_some() {
        return Err(format!("a {which} array appeared or disappeared"));
    }
    let (x, y) = (a.corners()?, b.corners().map_err(|e| format!("{which} data is invalid: {e}"))?);
    match (x, y) {
        (Some(x), Some(y)) => {
            if x.len() != y.len() {
                return Err(format!("{} {which} corners became {}", x.len(), y.len()));
            }
            if let Some(k) = (0..x.len()).find(|k| x[*k] != y[*k]) {
                return Err(format!("corner {k} got another {which}: {:?} became {:?}", x[k].map(f64::from_bits), y[k].map(f64::from_bits)));
            }
            Ok(())
        }
        _ => {
            if a != b {
                return Err(format!("{which} data without index array changed"));
            }
            Ok(())
        }
    }
}
fn after(m: &Md, f: impl Fn(&mut tmf::TMFMesh)) -> Result<Md, String> {
    let mut t = m.to_tmf();
    no_panic("the operation", || f(&mut t))?;
    if m.to_tmf().verify().is_ok() {
        t.verify().map_err(|e| format!("the result does not verify: {e}"))?;
    }
    let r = Md::from_tmf(&t, &m.names());
    let firsts: Vec<(String, Cd)> = m.names().into_iter().map(|n| (n.clone(), m.custom.iter().find(|c| c.0 == n).unwrap().1.clone())).collect();
    if r.custom != firsts {
        return Err("custom data changed".to_owned());
    }
    Ok(r)
}
fn reorder(m: &Md) -> Result<Md, String> {
    after(m, |t| t.reorder_data())
}
fn unify(m: &Md) -> Result<Md, String> {
    after(m, |t| t.unify_index_data())
}
fn c13_check(m: &Md) -> Result<Md, String> {
    let r = reorder(m)?;
    let (a, b) = (kinds(m), kinds(&r));
    for k in 0..4 {
        same_corners(NAMES[k], &a[k], &b[k])?;
        if k == 3 || !a[k].live() {
            if a[k] != b[k] {
                return Err(format!("{} data changed", NAMES[k]));
            }
            continue;
        }
        let (d, t) = (b[k].data.as_ref().unwrap(), b[k].tri.as_ref().unwrap());
        let used: BTreeSet<u64> = a[k].tri.as_ref().unwrap().iter().copied().collect();
        if d.len() != used.len() {
            return Err(format!("triangles use {} {} elements, but {} are kept", used.len(), NAMES[k], d.len()));
        }
        let mut next = 0;
        for (at, i) in t.iter().enumerate() {
            if *i > next {
                return Err(format!("{} corner {at} uses element {i} before {next} was used", NAMES[k]));
            }
            if *i == next {
                next += 1;
            }
        }
    }
    if reorder(&r)? != r {
        return Err("reordering again changed the mesh".to_owned());
    }
    Ok(r)
}
fn c13_nontrivial(m: &Md) -> bool {
    kinds(m)[..3].iter().any(|k| k.live() && !k.tri.iter().flatten().enumerate().all(|(i, x)| i as u64 == *x))
}
pub fn c13_reorder(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_mesh(s, &Opts { max_elems: 200, max_indices: 400, ..Opts::default() });
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c13_nontrivial(&m));
    c13_check(&m).map(|_| ())
}
/// Few elements, whose values repeat, under any indices
fn gen_tiny(s: &mut Src, equal_len: bool) -> Md {
    let mut m = Md::default();
    let len = s.pick(&[0usize, 1, 2, 3, 3, 6, 6, 9, 12]);
    let which = s.draw(15);
    let full = s.chance(1, 2);
    let shared = s.draw(3);
    let mut first: Option<Vec<I>> = None;
    let mut tri = |s: &mut Src, n: usize| -> Option<Vec<I>> {
        if !full && s.chance(1, 6) {
            return None;
        }
        if n == 0 {
            return Some(vec![]);
        }
        let own = if equal_len { len } else { s.pick(&[len, len, 3, 0, 7]) };
        let t: Vec<I> = match (&first, shared) {
            (Some(t), 2 | 3) => t.iter().map(|i| if s.chance(shared - 1, 8) { s.draw(n as u64 - 1) as I } else { *i % n as I }).collect(),
            _ => s.array(own, |s, _| s.draw(n as u64 - 1) as I),
        };
        if first.is_none() {
            first = Some(t.clone());
        }
        Some(t)
    };
    let some = |bit: u64, which: u64| full || which & bit != 0;
    if some(1, which) {
        let n = s.usize(0, 5);
        m.vt = tri(s, n);
        m.v = Some(s.array(n, |s, _| (s.draw(2) as F, s.draw(2) as F, if s.bool() { 0.0 } else { -0.0 })));
    }
    if some(2, which) {
        let n = s.usize(0, 5);
        m.nt = tri(s, n);
        m.n = Some(s.array(n, |s, _| gen_normal(s)));
    }
    if some(4, which) {
        let n = s.usize(0, 5);
        m.uvt = tri(s, n);
        m.uv = Some(s.array(n, |s, _| (s.draw(3) as F / 4.0, s.draw(3) as F / 4.0)));
    }
    if some(8, which) {
        let n = s.usize(0, 5);
        m.tt = tri(s, n);
        m.t = Some(s.array(n, |s, _| (gen_normal(s), if s.bool() { -1.0 } else { 1.0 })));
    }
    if s.chance(1, 6) {
        let d = gen_custom(s, 6);
        m.custom.push(("c".to_owned(), d));
    }
    m
}
pub fn c13_tiny(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tiny(s, false);
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c13_nontrivial(&m));
    c13_check(&m).map(|_| ())
}
/// More elements and indices than 16 bits count
fn gen_big(s: &mut Src, equal_len: bool) -> Md {
    let n = s.pick(&[60_000usize, 65_535, 65_536, 65_537, 70_000, 130_000]).min((I::MAX as usize).saturating_add(1));
    let o = Opts { max_elems: n, max_indices: n + 3000, equal_len, custom: false, ..Opts::default() };
    let mut m = gen_mesh(s, &o);
    if s.chance(2, 3) {
        // Every element used, far from in order
        let a = s.pick(&[1u64, 7, 12_345, 40_961]);
        let v = gen_verts(s, n);
        let mut t: Vec<I> = (0..n).map(|i| (i as u64 * a % n as u64) as I).collect();
        // Then some of them again, those used first, last or about the 65536th among them
        for _ in 0..s.usize(0, 12) {
            let at = match s.draw(3) {
                0 => s.usize(0, n - 1),
                1 => s.pick(&[0, 254, 255, 256]),
                2 => s.pick(&[65_534, 65_535, 65_536]).min(n - 1),
                _ => n - 1,
            };
            t.push(t[at]);
        }
        while t.len() % 3 != 0 {
            t.push(t[s.usize(0, n - 1)]);
        }
        let back: Vec<I> = t.iter().rev().copied().collect();
        m = Md { v: Some(v), vt: Some(t), ..Md::default() };
        m.uv = Some(s.array(n, |s, _| (gen_uv(s), gen_uv(s))));
        m.uvt = Some(back.clone());
        for k in 0..2 {
            if !s.bool() {
                continue;
            }
            let b = s.pick(&[1u64, 7, 12_345, 40_961]);
            let mut u: Vec<I> = (0..back.len()).map(|i| ((i + k) as u64 * b % n as u64) as I).collect();
            if s.bool() {
                u.reverse();
            }
            if k == 0 {
                m.n = Some(s.array(n, |s, _| gen_normal(s)));
                m.nt = Some(u);
            } else {
                m.t = Some(s.array(n, |s, _| (gen_normal(s), if s.bool() { 1.0 } else { -1.0 })));
                m.tt = Some(u);
            }
        }
    }
    m
}
pub fn c13_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_big(s, false);
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c13_nontrivial(&m));
    c13_check(&m).map(|_| ())
}
/// Reordering, unifying, saving and loading in any order keeps every corner.
fn c13_sequence(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m0 = gen_mesh(s, &Opts { max_elems: 40, max_indices: 60, equal_len: true, custom: false, ..Opts::default() });
    ctx.describe(|| m0.brief());
    ctx.nontrivial_if(c13_nontrivial(&m0));
    let mut m = m0.clone();
    for _ in 0..s.usize(1, 5) {
        if s.bool() {
            ctx.describe(|| "reorder".to_owned());
            m = c13_check(&m)?;
        } else {
            ctx.describe(|| "unify".to_owned());
            m = c14_check(&m)?;
        }
        let (a, b) = (kinds(&m0), kinds(&m));
        for k in 0..4 {
            same_corners(NAMES[k], &a[k], &b[k])?;
        }
    }
    Ok(())
}
fn c14_check(m: &Md) -> Result<Md, String> {
    let r = unify(m)?;
    let (a, b) = (kinds(m), kinds(&r));
    let live: Vec<usize> = (0..4).filter(|k| a[*k].live()).collect();
    for k in 0..4 {
        same_corners(NAMES[k], &a[k], &b[k])?;
        if !live.contains(&k) && a[k] != b[k] {
            return Err(format!("{} data, which takes no part, changed", NAMES[k]));
        }
    }
    let equal = live.windows(2).all(|w| a[w[0]].tri == a[w[1]].tri);
    if equal {
        if r.v != m.v || a != b {
            return Err("the index arrays were equal, yet the mesh changed".to_owned());
        }
        return Ok(r);
    }
    // With 16-bit indices, there can be more combinations than can be counted
    let all: BTreeSet<Vec<u64>> = (0..a[live[0]].tri.as_ref().unwrap().len()).map(|at| live.iter().map(|k| a[*k].tri.as_ref().unwrap()[at]).collect()).collect();
    if all.len() as u64 - 1 > I::MAX as u64 {
        if r.v != m.v || a != b {
            return Err(format!("{} combinations can't be indexed, yet the mesh changed", all.len()));
        }
        return Ok(r);
    }
    let first = b[live[0]].tri.as_ref().unwrap();
    for k in &live {
        if b[*k].tri.as_ref().unwrap() != first {
            return Err(format!("the {} index array differs from the {} one", NAMES[*k], NAMES[live[0]]));
        }
    }
    // Each element stands for one combination that occurs
    let mut combos: BTreeMap<Vec<u64>, u64> = BTreeMap::new();
    for (at, new) in first.iter().enumerate() {
        let c: Vec<u64> = live.iter().map(|k| a[*k].tri.as_ref().unwrap()[at]).collect();
        let had = *combos.entry(c).or_insert(*new);
        if had != *new {
            return Err(format!("corners with the same elements got different indices {had} and {new}"));
        }
    }
    for k in &live {
        let n = b[*k].data.as_ref().unwrap().len();
        if n != combos.len() {
            return Err(format!("{} combinations occur, but there are {n} {} elements", combos.len(), NAMES[*k]));
        }
    }
    if unify(&r)? != r {
        return Err("unifying again changed the mesh".to_owned());
    }
    Ok(r)
}
fn c14_nontrivial(m: &Md) -> bool {
    let k = kinds(m);
    let live: Vec<&Kind> = k.iter().filter(|k| k.live()).collect();
    live.windows(2).any(|w| w[0].tri != w[1].tri)
}
pub fn c14_unify(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_mesh(s, &Opts { max_elems: 200, max_indices: 400, equal_len: true, ..Opts::default() });
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c14_nontrivial(&m));
    c14_check(&m).map(|_| ())
}
pub fn c14_tiny(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_tiny(s, true);
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c14_nontrivial(&m));
    c14_check(&m).map(|_| ())
}
pub fn c14_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_big(s, true);
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c14_nontrivial(&m));
    c14_check(&m).map(|_| ())
}
/// Unified meshes stay unified when saved and loaded.
fn c14_saved(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_mesh(s, &Opts { max_elems: 60, max_indices: 120, equal_len: true, custom: false, ..Opts::default() });
    ctx.describe(|| m.brief());
    ctx.nontrivial_if(c14_nontrivial(&m));
    let r = c14_check(&m)?;
    let spec = gen_spec(s);
    let l = read(&write(&[(r.clone(), "m".to_owned())], &spec)?)?;
    if l.len() != 1 {
        return Err(format!("1 mesh became {}", l.len()));
    }
    let b = Md::from_tmf::<&str>(&l[0].0, &[]);
    same_structure(&r, &b)?;
    let k = kinds(&b);
    let live: Vec<usize> = (0..4).filter(|i| k[*i].live()).collect();
    if live.windows(2).any(|w| k[w[0]].tri != k[w[1]].tri) {
        return Err("index arrays of the loaded mesh are not equal".to_owned());
    }
    l[0].0.verify().map_err(|e| format!("the loaded mesh does not verify: {e}"))
}
