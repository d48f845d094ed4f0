//! The same harness built with other features of the library serves requests of a check, so that builds can be compared.
use crate::engine::{install_hook, no_panic};
use crate::model::*;
use crate::refcodec::{self, Canon, CanonCustom, Rd};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use tmf::*;

fn put_str(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u64).to_le_bytes());
    o.extend_from_slice(s);
}
fn get_str<'a>(r: &mut Rd<'a>) -> Option<&'a [u8]> {
    let n = r.u64()? as usize;
    r.take(n)
}
/// A mesh, with the precision or greatest value of its custom data.
fn put_md(o: &mut Vec<u8>, m: &Md) {
    Canon::from_md(m).to_bytes(o);
    for (_, c) in &m.custom {
        let x = match c {
            Cd::Index(_, m) | Cd::Int(_, m) => *m as u64,
            Cd::Float(_, p) | Cd::Rgba(_, p) => (*p as f64).to_bits(),
        };
        o.extend_from_slice(&x.to_le_bytes());
    }
}
fn ix(a: &[u64]) -> Option<Vec<I>> {
    a.iter().map(|i| I::try_from(*i).ok()).collect()
}
fn opt_ix(a: &Option<Vec<u64>>) -> Option<Option<Vec<I>>> {
    match a {
        None => Some(None),
        Some(a) => ix(a).map(Some),
    }
}
fn get_md(r: &mut Rd) -> Option<Md> {
    let c = Canon::from_bytes(r)?;
    let v3 = |a: &Vec<[f64; 3]>| a.iter().map(|p| (p[0] as F, p[1] as F, p[2] as F)).collect::<Vec<_>>();
    let mut m = Md {
        v: c.v.as_ref().map(v3),
        n: c.n.as_ref().map(v3),
        uv: c.uv.as_ref().map(|a| a.iter().map(|p| (p[0] as F, p[1] as F)).collect()),
        t: c.t.as_ref().map(|a| a.iter().map(|p| ((p[0] as F, p[1] as F, p[2] as F), p[3] as F)).collect()),
        vt: opt_ix(&c.vt)?,
        nt: opt_ix(&c.nt)?,
        uvt: opt_ix(&c.uvt)?,
        tt: opt_ix(&c.tt)?,
        custom: vec![],
    };
    for (n, d) in &c.custom {
        let x = r.u64()?;
        let d = match d {
            CanonCustom::Index(a) => Cd::Index(ix(a)?, x as usize),
            CanonCustom::Int(a) => Cd::Int(ix(a)?, x as usize),
            CanonCustom::Float(a) => Cd::Float(a.iter().map(|x| *x as F).collect(), f64::from_bits(x) as F),
            CanonCustom::Rgba(a) => Cd::Rgba(a.iter().map(|p| (p[0] as F, p[1] as F, p[2] as F, p[3] as F)).collect(), f64::from_bits(x) as F),
        };
        m.custom.push((n.clone(), d));
    }
    Some(m)
}
fn put_meshes(o: &mut Vec<u8>, meshes: &[(Md, String)]) {
    o.extend_from_slice(&(meshes.len() as u64).to_le_bytes());
    for (m, n) in meshes {
        put_str(o, n.as_bytes());
        put_md(o, m);
    }
}
fn get_meshes(r: &mut Rd) -> Option<Vec<(Md, String)>> {
    let n = r.u64()?;
    (0..n)
        .map(|_| {
            let name = String::from_utf8(get_str(r)?.to_vec()).ok()?;
            Some((get_md(r)?, name))
        })
        .collect()
}
/// Names of all custom data in a file
pub fn custom_names(bytes: &[u8]) -> Vec<Vec<String>> {
    let Some((f, _)) = refcodec::parse(bytes) else { return vec![] };
    f.meshes
        .iter()
        .map(|m| {
            let mut names: Vec<String> = Vec::new();
            for s in m.segs.iter().filter(|s| matches!(s.ty, 15 | 16 | 23 | 24)) {
                let n = *s.data.first().unwrap_or(&0) as usize;
                if let Some(Ok(n)) = s.data.get(1..1 + n).map(|b| String::from_utf8(b.to_vec())) {
                    if !names.contains(&n) {
                        names.push(n);
                    }
                }
            }
            names
        })
        .collect()
}
pub type Named = Vec<(String, Canon)>;
/// What the getters of loaded meshes give, with custom data under *names*.
pub fn canon_all(meshes: &[(TMFMesh, String)], names: &[Vec<String>]) -> Named {
    meshes.iter().enumerate().map(|(k, (m, n))| (n.clone(), Canon::from_md(&Md::from_tmf(m, names.get(k).map_or(&[][..], |n| &n[..]))))).collect()
}
fn put_named(o: &mut Vec<u8>, a: &Named) {
    o.extend_from_slice(&(a.len() as u64).to_le_bytes());
    for (n, c) in a {
        put_str(o, n.as_bytes());
        c.to_bytes(o);
    }
}
fn get_named(r: &mut Rd) -> Option<Named> {
    let n = r.u64()?;
    (0..n)
        .map(|_| {
            let name = String::from_utf8(get_str(r)?.to_vec()).ok()?;
            Some((name, Canon::from_bytes(r)?))
        })
        .collect()
}
fn put_spec(o: &mut Vec<u8>, s: &Spec) {
    for x in [s.vertex as f64, s.normal.0 as f64, s.normal.1 as u8 as f64, s.tangent.0 as f64, s.tangent.1 as u8 as f64, s.uv.0 as f64, s.uv.1 as f64] {
        o.extend_from_slice(&x.to_le_bytes());
    }
}
fn get_spec(r: &mut Rd) -> Option<Spec> {
    let mut x = [0.0; 7];
    for x in &mut x {
        *x = r.f64()?;
    }
    Some(Spec { vertex: x[0] as F, normal: (x[1] as F, x[2] != 0.0), tangent: (x[3] as F, x[4] != 0.0), uv: (x[5] as f32, x[6] as f32) })
}
/// Answers a request; Err is an error the library reported.
pub fn answer(req: &[u8]) -> Result<Vec<u8>, String> {
    let mut r = Rd { b: req, pos: 0 };
    let mut o = Vec::new();
    let bad = || "BAD REQUEST".to_owned();
    match r.u8().ok_or_else(bad)? {
        // Write TMF
        1 => {
            let spec = get_spec(&mut r).ok_or_else(bad)?;
            let meshes = get_meshes(&mut r).ok_or_else(|| "UNREPRESENTABLE".to_owned())?;
            o = write(&meshes, &spec)?;
        }
        // Read TMF
        2 => {
            let b = &req[1..];
            let m = TMFMesh::read_tmf(&mut &b[..]).map_err(|e| format!("{e:?}"))?;
            put_named(&mut o, &canon_all(&m, &custom_names(b)));
        }
        // Import OBJ
        3 => {
            let m = TMFMesh::read_from_obj(&mut &req[1..]).map_err(|e| format!("{e:?}"))?;
            put_named(&mut o, &canon_all(&m, &[]));
        }
        // Export OBJ
        4 => {
            let meshes = get_meshes(&mut r).ok_or_else(|| "UNREPRESENTABLE".to_owned())?;
            let list: Vec<(TMFMesh, &str)> = meshes.iter().map(|(m, n)| (m.to_tmf(), n.as_str())).collect();
            TMFMesh::write_obj(&list, &mut o).map_err(|e| format!("{e:?}"))?;
        }
        // Verify, reorder, unify
        5 => {
            let meshes = get_meshes(&mut r).ok_or_else(|| "UNREPRESENTABLE".to_owned())?;
            let mut res = Vec::new();
            for (m, n) in meshes {
                let a = m.to_tmf();
                res.push((format!("{:?}", a.verify()), Canon::default()));
                let mut b = a.clone();
                b.reorder_data();
                res.push((n.clone(), Canon::from_md(&Md::from_tmf(&b, &m.names()))));
                let mut b = a.clone();
                b.unify_index_data();
                res.push((n.clone(), Canon::from_md(&Md::from_tmf(&b, &m.names()))));
            }
            put_named(&mut o, &res);
        }
        _ => return Err(bad()),
    }
    Ok(o)
}
pub fn serve() {
    install_hook();
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut len = [0u8; 4];
        if i.read_exact(&mut len).is_err() {
            return;
        }
        let mut req = vec![0; u32::from_le_bytes(len) as usize];
        if i.read_exact(&mut req).is_err() {
            return;
        }
        let (st, body) = match no_panic("peer", || answer(&req)) {
            Ok(Ok(b)) => (0u8, b),
            Ok(Err(e)) => (1, e.into_bytes()),
            Err(p) => (2, p.into_bytes()),
        };
        let mut out = Vec::with_capacity(body.len() + 5);
        out.extend_from_slice(&(body.len() as u32 + 1).to_le_bytes());
        out.push(st);
        out.extend(body);
        if o.write_all(&out).and_then(|_| o.flush()).is_err() {
            return;
        }
    }
}
struct Proc {
    child: Child,
    i: Option<ChildStdin>,
    o: ChildStdout,
}
impl Drop for Proc {
    fn drop(&mut self) {
        // Its input ends, so it ends
        self.i = None;
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEERS: RefCell<HashMap<String, Proc>> = RefCell::new(HashMap::new());
}
pub fn available(config: &str) -> bool {
    std::env::var_os(format!("HARNESS_PEER_{config}")).is_some()
}
/// Sends a request to the build *config*: Ok is its answer or the error the library reported there; Err is a crash.
pub fn ask(config: &str, req: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    PEERS.with(|peers| {
        let mut peers = peers.borrow_mut();
        if !peers.contains_key(config) {
            let path = std::env::var(format!("HARNESS_PEER_{config}")).map_err(|_| format!("no peer {config}"))?;
            let mut child = Command::new(path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
            let (i, o) = (child.stdin.take(), child.stdout.take().unwrap());
            peers.insert(config.to_owned(), Proc { child, i, o });
        }
        let p = peers.get_mut(config).unwrap();
        let mut run = || -> std::io::Result<(u8, Vec<u8>)> {
            let i = p.i.as_mut().unwrap();
            i.write_all(&(req.len() as u32).to_le_bytes())?;
            i.write_all(req)?;
            i.flush()?;
            let mut len = [0u8; 4];
            p.o.read_exact(&mut len)?;
            let mut b = vec![0; u32::from_le_bytes(len) as usize];
            p.o.read_exact(&mut b)?;
            Ok((b[0], b[1..].to_vec()))
        };
        match run() {
            Ok((0, b)) => Ok(Ok(b)),
            Ok((1, b)) => Ok(Err(String::from_utf8_lossy(&b).into_owned())),
            Ok((_, b)) => Err(format!("in the {config} build: {}", String::from_utf8_lossy(&b))),
            Err(e) => {
                peers.remove(config);
                Err(format!("the {config} build crashed ({e})"))
            }
        }
    })
}
fn meshes_req(op: u8, meshes: &[(Md, String)]) -> Vec<u8> {
    let mut q = vec![op];
    put_meshes(&mut q, meshes);
    q
}
pub fn write_in(config: &str, meshes: &[(Md, String)], spec: &Spec) -> Result<Result<Vec<u8>, String>, String> {
    let mut q = vec![1];
    put_spec(&mut q, spec);
    put_meshes(&mut q, meshes);
    ask(config, &q)
}
fn named(r: Result<Result<Vec<u8>, String>, String>) -> Result<Result<Named, String>, String> {
    match r? {
        Ok(b) => get_named(&mut Rd { b: &b, pos: 0 }).map(Ok).ok_or_else(|| "the peer's answer is malformed".to_owned()),
        Err(e) => Ok(Err(e)),
    }
}
pub fn read_in(config: &str, bytes: &[u8]) -> Result<Result<Named, String>, String> {
    let mut q = vec![2];
    q.extend_from_slice(bytes);
    named(ask(config, &q))
}
pub fn import_in(config: &str, text: &[u8]) -> Result<Result<Named, String>, String> {
    let mut q = vec![3];
    q.extend_from_slice(text);
    named(ask(config, &q))
}
pub fn export_in(config: &str, meshes: &[(Md, String)]) -> Result<Result<Vec<u8>, String>, String> {
    ask(config, &meshes_req(4, meshes))
}
pub fn process_in(config: &str, meshes: &[(Md, String)]) -> Result<Result<Named, String>, String> {
    named(ask(config, &meshes_req(5, meshes)))
}
/// The same request answered by this build
pub fn process_here(meshes: &[(Md, String)]) -> Result<Result<Named, String>, String> {
    named(Ok(answer(&meshes_req(5, meshes))))
}
