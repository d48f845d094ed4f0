//! Readers and writers with legal oddities and injected faults.
use crate::engine::{mix, Src};
use std::io::{Error, ErrorKind, Read, Result, Write};
/// How a source or sink behaves; decided by a seed, so that a case is determined by its choices.
#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    /// At most this many bytes per call (0: as many as asked)
    pub max: usize,
    pub interrupts: bool,
    /// After this many bytes, calls fail (or report the end)
    pub fail_at: Option<usize>,
    pub kind: Fault,
    /// Only the first call at that point fails
    pub once: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Error(ErrorKind),
    /// Ok(0)
    Zero,
}
impl Plan {
    pub fn legal(s: &mut Src) -> Self {
        Plan { seed: s.draw(u32::MAX as u64), max: s.pick(&[1usize, 2, 3, 7, 8, 64, 0]), interrupts: s.bool(), fail_at: None, kind: Fault::Zero, once: false }
    }
    pub fn plain() -> Self {
        Plan { seed: 0, max: 0, interrupts: false, fail_at: None, kind: Fault::Zero, once: false }
    }
}
pub struct OddReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Plan,
    pub calls: u64,
    pub faults: u64,
}
impl<'a> OddReader<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        Self { data, pos: 0, plan, calls: 0, faults: 0 }
    }
}
fn amount(plan: &Plan, calls: u64, n: usize) -> usize {
    if n == 0 || plan.max == 0 {
        return n;
    }
    let m = n.min(plan.max);
    1 + (mix(plan.seed ^ calls) % m as u64) as usize
}
fn interrupted(plan: &Plan, calls: u64) -> bool {
    // Never twice in a row
    plan.interrupts && calls % 2 == 0 && mix(plan.seed ^ calls ^ 0x5555) % 4 == 0
}
impl Read for OddReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if interrupted(&self.plan, self.calls) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut left = self.data.len() - self.pos;
        if let Some(at) = self.plan.fail_at {
            if self.pos >= at && !(self.plan.once && self.faults > 0) {
                self.faults += 1;
                return match self.plan.kind {
                    Fault::Error(k) => Err(Error::new(k, "injected")),
                    Fault::Zero => Ok(0),
                };
            }
            if self.pos < at {
                left = left.min(at - self.pos);
            }
        }
        let n = amount(&self.plan, self.calls, left.min(buf.len()));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct OddWriter {
    pub out: Vec<u8>,
    pub plan: Plan,
    pub calls: u64,
    pub faults: u64,
}
impl OddWriter {
    pub fn new(plan: Plan) -> Self {
        Self { out: Vec::new(), plan, calls: 0, faults: 0 }
    }
}
impl Write for OddWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if interrupted(&self.plan, self.calls) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut left = buf.len();
        if let Some(at) = self.plan.fail_at {
            if self.out.len() >= at && !(self.plan.once && self.faults > 0) {
                self.faults += 1;
                return match self.plan.kind {
                    Fault::Error(k) => Err(Error::new(k, "injected")),
                    Fault::Zero => Ok(0),
                };
            }
            if self.out.len() < at {
                left = left.min(at - self.out.len());
            }
        }
        let n = amount(&self.plan, self.calls, left);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
/// Runs an asynchronous call of the library; with tokio_runtime the library needs a tokio runtime around it.
#[cfg(not(feature = "most"))]
pub fn block_on<T: std::future::Future>(f: T) -> T::Output {
    futures::executor::block_on(f)
}
#[cfg(feature = "most")]
pub fn block_on<T: std::future::Future>(f: T) -> T::Output {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().expect("a tokio runtime")).block_on(f)
}
