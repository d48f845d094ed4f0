//! C22: the bit-packed arrays all data is saved in, against a model that keeps every bit by itself.
use crate::engine::*;
use crate::io::*;
use crate::refcodec::Bits;
use tmf::unaligned_rw::*;
pub static PROPS: &[Prop] = &[Prop {
    id: "C22",
    rule: "the sequence has at least 2 non-empty values and is not made of whole bytes only",
    assumptions: &["values fit their width", "sources may split reads, but are not interrupted"],
    arms: &[Arm::new("sequence", c22_sequence, 150_000, 6_000_000), Arm::new("past_end", c22_end, 60_000, 2_000_000), Arm::enumerated("uniform", c22_uniform, 65, 6500, 650_000)],
}];
fn m(bits: u32) -> UnalignedRWMode {
    UnalignedRWMode::precision_bits(bits as u8)
}
fn mask(w: u32) -> u64 {
    if w == 0 {
        0
    } else {
        u64::MAX >> (64 - w)
    }
}
fn gen_value(s: &mut Src, w: u32) -> u64 {
    let top = mask(w);
    match s.draw(5) {
        0 => 0,
        1 => top,
        2 => top ^ (top >> 1),
        3 => 1 & top,
        _ => s.draw(u64::MAX) & top,
    }
}
fn gen_ops(s: &mut Src) -> Vec<(u32, u64)> {
    let runs = s.usize(1, 8);
    let mut ops = Vec::new();
    for _ in 0..runs {
        let w = match s.draw(5) {
            0 => s.pick(&[1u32, 7, 8, 9, 15, 16, 17, 21, 22, 31, 32, 33, 63, 64, 0]),
            1 => 64 - s.draw(3) as u32,
            _ => s.draw(64) as u32,
        };
        let n = s.usize(1, 6);
        for _ in 0..n {
            // Mostly of one width, so that pairs and triples can be read
            let w = if s.chance(1, 5) { s.draw(64) as u32 } else { w };
            ops.push((w, gen_value(s, w)));
        }
    }
    ops
}
fn write_ops(ops: &[(u32, u64)], plan: Plan, bits_too: u64) -> Result<Vec<u8>, String> {
    let mut sink = OddWriter::new(plan);
    {
        let mut w = UnalignedWriter::new(&mut sink);
        for (i, (width, v)) in ops.iter().enumerate() {
            if *width == 1 && (bits_too >> (i % 16)) & 1 == 1 {
                w.write_bit(*v == 1).map_err(|e| format!("writing failed: {e}"))?;
            } else {
                w.write_unaligned(m(*width), *v).map_err(|e| format!("writing failed: {e}"))?;
            }
        }
    }
    Ok(sink.out)
}
fn model_bytes(ops: &[(u32, u64)]) -> Vec<u8> {
    let mut b = Bits::new();
    ops.iter().for_each(|(w, v)| b.put(*v, *w));
    b.bytes()
}
/// Reads the values of *ops*, combining reads as *s* says. Returns the first difference.
fn read_ops<R: std::io::Read>(r: &mut UnalignedReader<R>, ops: &[(u32, u64)], s: &mut Src) -> Res {
    let e = |i: usize, e: std::io::Error| format!("reading value {i} failed: {e}");
    let diff = |i: usize, how: &str, got: &[u64]| -> Res {
        for (k, g) in got.iter().enumerate() {
            let (w, v) = ops[i + k];
            if *g != v {
                return Err(format!("value {} ({w} bits), read {how}, is {g:#x} instead of {v:#x}", i + k));
            }
        }
        Ok(())
    };
    let mut i = 0;
    while i < ops.len() {
        let w = ops[i].0;
        let next = ops.get(i + 1).map(|o| o.0);
        let next2 = ops.get(i + 2).map(|o| o.0);
        match s.draw(4) {
            1 => {
                let mut v = 0u64;
                for _ in 0..w {
                    v = v << 1 | r.read_bit().map_err(|x| e(i, x))? as u64;
                }
                diff(i, "bit by bit", &[v])?;
                i += 1;
            }
            2 if next.is_some() => {
                let (a, b) = r.read_pair_unaligned(m(w), m(next.unwrap())).map_err(|x| e(i, x))?;
                diff(i, "as a pair", &[a, b])?;
                i += 2;
            }
            3 if next == Some(w) => {
                let (a, b) = r.read2_unaligned(m(w)).map_err(|x| e(i, x))?;
                diff(i, "as two", &[a, b])?;
                i += 2;
            }
            4 if next == Some(w) && next2 == Some(w) => {
                let (a, b, c) = r.read3_unaligned(m(w)).map_err(|x| e(i, x))?;
                diff(i, "as three", &[a, b, c])?;
                i += 3;
            }
            _ => {
                let v = r.read_unaligned(m(w)).map_err(|x| e(i, x))?;
                diff(i, "alone", &[v])?;
                i += 1;
            }
        }
    }
    Ok(())
}
fn plan(s: &mut Src, interrupts: bool) -> Plan {
    let mut p = Plan::legal(s);
    p.interrupts &= interrupts;
    p
}
fn check_written(ops: &[(u32, u64)], bytes: &[u8]) -> Res {
    let want = model_bytes(ops);
    if bytes != want {
        let k = (0..bytes.len().max(want.len())).find(|k| bytes.get(*k) != want.get(*k)).unwrap();
        return Err(format!("byte {k} is {:02x?} instead of {:02x?} ({} bytes written, {} expected)", bytes.get(k), want.get(k), bytes.len(), want.len()));
    }
    Ok(())
}
fn c22_sequence(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ops = gen_ops(s);
    let (wp, rp) = (plan(s, true), plan(s, false));
    ctx.describe(|| format!("(width, value): {ops:?} source {rp:?}"));
    ctx.nontrivial_if(ops.iter().filter(|o| o.0 > 0).count() >= 2 && ops.iter().any(|o| o.0 % 8 != 0));
    ctx.count("values", ops.len() as u64);
    ctx.label_if(ops.iter().any(|o| o.0 > 57), "wide");
    let bytes = write_ops(&ops, wp, s.draw(u16::MAX as u64))?;
    check_written(&ops, &bytes)?;
    let mut r = UnalignedReader::new(OddReader::new(&bytes, rp));
    read_ops(&mut r, &ops, s)
}
/// All values of one width
fn c22_uniform(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = s.draw(64) as u32;
    let n = s.usize(1, 40);
    let ops: Vec<(u32, u64)> = s.array(n, |s, _| (w, gen_value(s, w)));
    ctx.describe(|| format!("{w} bits: {ops:x?}"));
    ctx.nontrivial_if(n >= 2 && w % 8 != 0);
    let bytes = write_ops(&ops, Plan::plain(), 0)?;
    check_written(&ops, &bytes)?;
    let rp = plan(s, false);
    let mut r = UnalignedReader::new(OddReader::new(&bytes, rp));
    read_ops(&mut r, &ops, s)
}
fn c22_end(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ops = gen_ops(s);
    let cut = if s.bool() { s.draw(64) as usize } else { 0 };
    let mut bytes = model_bytes(&ops);
    bytes.truncate(bytes.len().saturating_sub(cut));
    let rp = plan(s, false);
    ctx.describe(|| format!("(width, value): {ops:?} {cut} bytes cut off, source {rp:?}"));
    ctx.nontrivial_if(ops.iter().filter(|o| o.0 > 0).count() >= 2 && ops.iter().any(|o| o.0 % 8 != 0));
    // Whatever still fits reads back
    let mut have = bytes.len() * 8;
    let mut k = 0;
    while k < ops.len() && ops[k].0 as usize <= have {
        have -= ops[k].0 as usize;
        k += 1;
    }
    let mut r = UnalignedReader::new(OddReader::new(&bytes, rp));
    read_ops(&mut r, &ops[..k], s)?;
    // What does not is an error
    let need = |w: usize| -> u32 { w.max(1).min(64) as u32 };
    let how = s.draw(4);
    let (what, res): (String, Option<String>) = match how {
        0 if have < 64 => {
            let w = need(have + 1 + s.usize(0, 63 - have));
            (format!("{w} bits"), r.read_unaligned(m(w)).ok().map(|v| format!("{v:#x}")))
        }
        1 => {
            let w = need(have / 2 + 1 + s.usize(0, 20));
            (format!("2*{w} bits"), r.read2_unaligned(m(w)).ok().map(|v| format!("{v:x?}")))
        }
        2 => {
            let w = need(have / 3 + 1 + s.usize(0, 20));
            (format!("3*{w} bits"), r.read3_unaligned(m(w)).ok().map(|v| format!("{v:x?}")))
        }
        3 => {
            let a = s.draw(64) as usize;
            let b = (have + 1).saturating_sub(a).max(1) + s.usize(0, 5);
            let b = b.min(64);
            if a + b <= have {
                return Ok(());
            }
            (format!("{a}+{b} bits"), r.read_pair_unaligned(m(a as u32), m(b as u32)).ok().map(|v| format!("{v:x?}")))
        }
        _ => {
            for i in 0..have {
                r.read_bit().map_err(|e| format!("reading bit {i} of the {have} left failed: {e}"))?;
            }
            ("one bit".to_owned(), r.read_bit().ok().map(|v| format!("{v}")))
        }
    };
    let enough = match how {
        0 => have < 64,
        1 => (have / 2 + 1) * 2 > have && have / 2 + 1 <= 64,
        2 => have / 3 + 1 <= 64,
        _ => true,
    };
    match res {
        Some(v) if enough => Err(format!("{have} bits were left, but reading {what} gave {v}")),
        _ => Ok(()),
    }
}
