//! Total reference decoder: what any square of modules has to decode to.

use crate::qr::*;
use crate::util::*;
use rqrr::DeQRError as E;
use std::sync::OnceLock;

/// data5 of the format codeword within distance 3 of a drawn word, if any.
pub fn ref_format(drawn: u16) -> Option<u8> {
    static T: OnceLock<Vec<Option<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        (0..32768u16)
            .map(|w| {
                let w = w ^ 0x5412;
                (0..32u16).find(|&d| (format_codeword(d) ^ w).count_ones() <= 3).map(|d| d as u8)
            })
            .collect()
    })[drawn as usize]
}

pub fn drawn_word(m: &Modules, copy: usize) -> u16 {
    let cells = if copy == 0 { format_cells_1() } else { format_cells_2(m.n) };
    cells.iter().enumerate().fold(0, |a, (i, &(y, x))| a | (m.get(y, x) as u16) << i)
}

pub fn ref_read_format(m: &Modules) -> Option<u8> {
    ref_format(drawn_word(m, 0)).or_else(|| ref_format(drawn_word(m, 1)))
}

/// Bounded distance decoder (Peterson-Gorenstein-Zierler): the codeword within
/// floor(necc/2) symbol errors of `block`, if there is one.
pub fn rs_correct(block: &[u8], necc: usize) -> Option<Vec<u8>> {
    let g = gf();
    let n = block.len();
    let t = necc / 2;
    let synd = |b: &[u8]| -> Vec<u8> {
        (0..necc)
            .map(|i| {
                let r = g.alpha(i);
                b.iter().fold(0u8, |a, &x| g.mul(a, r) ^ x)
            })
            .collect()
    };
    let s = synd(block);
    if s.iter().all(|&x| x == 0) {
        return Some(block.to_vec());
    }
    let mut nu = t;
    let lambda = loop {
        if nu == 0 {
            return None;
        }
        // S[i..i+nu] * lambda = S[i+nu]
        let mut a: Vec<Vec<u8>> =
            (0..nu).map(|i| (0..nu).map(|j| s[i + j]).chain(std::iter::once(s[i + nu])).collect()).collect();
        if let Some(x) = solve(&mut a) {
            break x;
        }
        nu -= 1;
    };
    // sigma(z) = 1 + lambda[nu-1] z + ... + lambda[0] z^nu ; roots are inverse locators
    let mut locs = Vec::new();
    for p in 0..n {
        let xinv = g.alpha(255 - p % 255);
        let mut acc = 1u8;
        let mut pw = 1u8;
        for k in 1..=nu {
            pw = g.mul(pw, xinv);
            acc ^= g.mul(lambda[nu - k], pw);
        }
        if acc == 0 {
            locs.push(p);
        }
    }
    if locs.len() != nu {
        return None;
    }
    let mut a: Vec<Vec<u8>> = (0..nu)
        .map(|i| locs.iter().map(|&p| g.alpha(i * p)).chain(std::iter::once(s[i])).collect())
        .collect();
    let mag = solve(&mut a)?;
    let mut out = block.to_vec();
    for (k, &p) in locs.iter().enumerate() {
        if mag[k] == 0 {
            return None;
        }
        out[n - 1 - p] ^= mag[k];
    }
    if synd(&out).iter().all(|&x| x == 0) {
        Some(out)
    } else {
        None
    }
}

/// Gauss-Jordan over GF(256); None if singular.
fn solve(a: &mut [Vec<u8>]) -> Option<Vec<u8>> {
    let g = gf();
    let n = a.len();
    for c in 0..n {
        let p = (c..n).find(|&r| a[r][c] != 0)?;
        a.swap(c, p);
        let inv = g.inv(a[c][c]);
        for j in c..=n {
            a[c][j] = g.mul(a[c][j], inv);
        }
        for r in 0..n {
            if r != c && a[r][c] != 0 {
                let f = a[r][c];
                for j in c..=n {
                    let t = g.mul(f, a[c][j]);
                    a[r][j] ^= t;
                }
            }
        }
    }
    Some(a.iter().map(|r| r[n]).collect())
}

/// What a stream of data codewords has to produce.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    Err(E),
    /// the standard gives the stream no meaning: any answer, but an answer
    Undefined,
}

#[derive(Debug, Clone)]
pub struct Parsed {
    /// everything a decoder may have written
    pub out: Vec<u8>,
    pub verdict: Verdict,
    /// second acceptable verdict (a count field cut off by the end of the data)
    pub also: Option<Verdict>,
}

pub fn parse(v: usize, data: &[u8]) -> Parsed {
    let bits: usize = data.len() * 8;
    let mut p = 0usize;
    let get = |p: usize, n: usize| -> usize {
        (p..p + n).fold(0, |a, i| a << 1 | ((data[i / 8] >> (7 - i % 8)) & 1) as usize)
    };
    let mut out: Vec<u8> = Vec::new();
    let done = |out: Vec<u8>, verdict: Verdict| Parsed { out, verdict, also: None };
    let c = class(v);
    loop {
        if bits - p < 4 {
            return done(out, Verdict::Ok);
        }
        let mode = get(p, 4);
        p += 4;
        let cb = match mode {
            0 => return done(out, Verdict::Ok),
            1 => [10, 12, 14][c],
            2 => [9, 11, 13][c],
            4 => [8, 16, 16][c],
            8 => [8, 10, 12][c],
            7 => 8,
            _ => return done(out, Verdict::Err(E::UnknownDataType)),
        };
        if bits - p < cb {
            // The header itself is cut off.  If what is left of it is zero a
            // decoder may also read it as an empty segment.
            let rest = get(p, bits - p);
            let also = if rest == 0 && mode != 7 { Some(Verdict::Ok) } else { None };
            return Parsed { out, verdict: Verdict::Err(E::DataUnderflow), also };
        }
        let count = get(p, cb);
        p += cb;
        match mode {
            7 => {
                let extra = if count & 0x80 == 0 {
                    0
                } else if count & 0xc0 == 0x80 {
                    8
                } else if count & 0xe0 == 0xc0 {
                    16
                } else {
                    return done(out, Verdict::Undefined);
                };
                if bits - p < extra {
                    return done(out, Verdict::Err(E::DataUnderflow));
                }
                p += extra;
            }
            1 => {
                let mut left = count;
                while left > 0 {
                    let k = left.min(3);
                    let (nb, lim) = [(0, 0), (4, 10), (7, 100), (10, 1000)][k];
                    if bits - p < nb {
                        return done(out, Verdict::Err(E::DataUnderflow));
                    }
                    let val = get(p, nb);
                    p += nb;
                    if val >= lim {
                        return done(out, Verdict::Undefined);
                    }
                    let s = format!("{val:0k$}");
                    out.extend_from_slice(s.as_bytes());
                    left -= k;
                }
            }
            2 => {
                let mut left = count;
                while left > 0 {
                    let k = left.min(2);
                    let (nb, lim) = [(0, 0), (6, 45), (11, 2025)][k];
                    if bits - p < nb {
                        return done(out, Verdict::Err(E::DataUnderflow));
                    }
                    let val = get(p, nb);
                    p += nb;
                    if val >= lim {
                        return done(out, Verdict::Undefined);
                    }
                    if k == 2 {
                        out.push(ALNUM[val / 45]);
                    }
                    out.push(ALNUM[val % 45]);
                    left -= k;
                }
            }
            4 => {
                for _ in 0..count {
                    if bits - p < 8 {
                        return done(out, Verdict::Err(E::DataUnderflow));
                    }
                    out.push(get(p, 8) as u8);
                    p += 8;
                }
            }
            _ => {
                for k in 0..count {
                    if bits - p < 13 {
                        return done(out, Verdict::Err(E::DataUnderflow));
                    }
                    let val = get(p, 13) as u16;
                    p += 13;
                    if !kanji_defined(val) {
                        // whether the segment is complete is checked first by
                        // some decoders, so its end decides what is expected
                        let _ = k;
                        return done(out, Verdict::Undefined);
                    }
                    out.extend_from_slice(&kanji_sjis(val));
                }
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Expect {
    pub meta: Option<Meta>,
    pub out: Vec<u8>,
    pub verdict: Verdict,
    pub also: Option<Verdict>,
    /// a failure of the error correction: nothing may have been written
    pub hard: bool,
}

fn one_way(m: &Modules) -> Result<(Meta, Vec<u8>), E> {
    let v = (m.n - 17) / 4;
    let f = ref_read_format(m).ok_or(E::FormatEcc)?;
    let (lvl, mask) = ((f >> 3) as usize, (f & 7) as usize);
    let b = blk(v, lvl);
    let blocks = drawn_blocks(m, lvl, mask);
    let mut data = Vec::with_capacity(b.data_total);
    for (i, blk) in blocks.iter().enumerate() {
        let c = rs_correct(blk, b.blocks[i].ecc).ok_or(E::DataEcc)?;
        data.extend_from_slice(&c[..b.blocks[i].data]);
    }
    Ok((Meta { v, lvl, mask }, data))
}

/// Reference decoding of a square whose side is 17 + 4v, 1 <= v <= 40.
pub fn ref_decode(m: &Modules) -> Expect {
    let r = one_way(m).or_else(|e| one_way(&m.transpose()).map_err(|_| e));
    match r {
        Err(e) => Expect { meta: None, out: vec![], verdict: Verdict::Err(e), also: None, hard: true },
        Ok((meta, data)) => {
            let p = parse(meta.v, &data);
            Expect { meta: Some(meta), out: p.out, verdict: p.verdict, also: p.also, hard: false }
        }
    }
}

/// Judge one decode against the reference.
pub fn judge(
    e: &Expect,
    out: &[u8],
    r: &Result<Meta, E>,
    near: Option<&dyn Fn(&Meta, &[u8]) -> bool>,
) -> Result<&'static str, String> {
    let show = |r: &Result<Meta, E>| match r {
        Ok(m) => format!("Ok({m:?}) {}", hex(out)),
        Err(x) => format!("Err({x:?}) after writing {}", hex(out)),
    };
    let accept = |v: &Verdict| match (v, r) {
        (Verdict::Undefined, _) => {
            out.starts_with(&e.out) || e.out.starts_with(out)
        }
        (Verdict::Ok, Ok(m)) => Some(m) == e.meta.as_ref() && out == e.out,
        (Verdict::Err(a), Err(b)) => a == b && e.out.starts_with(out),
        _ => false,
    };
    if accept(&e.verdict) {
        return Ok(match &e.verdict {
            Verdict::Ok => "ok",
            Verdict::Undefined => "undefined",
            Verdict::Err(E::DataEcc) => "DataEcc",
            Verdict::Err(E::FormatEcc) => "FormatEcc",
            Verdict::Err(E::DataUnderflow) => "DataUnderflow",
            Verdict::Err(E::UnknownDataType) => "UnknownDataType",
            Verdict::Err(_) => "error",
        });
    }
    if let Some(a) = &e.also {
        if accept(a) {
            return Ok("cut header");
        }
    }
    // more errors repaired than promised
    if let (true, Some(near), Ok(rm)) = (e.hard, near, r) {
        if near(rm, out) {
            return Ok("repaired beyond capacity");
        }
    }
    let want = match &e.verdict {
        Verdict::Ok => format!("Ok({:?}) {}", e.meta, hex(&e.out)),
        v => format!("{v:?} after at most {}", hex(&e.out)),
    };
    Err(format!("the crate answers {}, the reference model {want}", show(r)))
}

/// The blocks of a symbol as drawn, errors included.
pub fn drawn_blocks(m: &Modules, lvl: usize, mask: usize) -> Vec<Vec<u8>> {
    let v = (m.n - 17) / 4;
    let l = lay(v);
    let b = blk(v, lvl);
    let mut blocks: Vec<Vec<u8>> = b.blocks.iter().map(|b| vec![0; b.len()]).collect();
    for (i, &(bi, ix)) in b.order.iter().enumerate() {
        let mut cw = 0u8;
        for k in 0..8 {
            let (y, x) = l.cells[i * 8 + k];
            cw = cw << 1 | (m.get(y, x) ^ mask_at(mask, y, x)) as u8;
        }
        blocks[bi][ix] = cw;
    }
    blocks
}

/// Is `out` (as one byte segment) the content of a valid symbol that differs
/// from the drawn one in at most ceil(e/2) codewords of every block?  With an
/// odd number of check codewords a decoder may go one further than guaranteed.
pub fn nearly(m: &Modules, meta: &Meta, out: &[u8]) -> bool {
    if out.len() > cap(0, meta.v, meta.lvl) {
        return false;
    }
    let s = Symbol::from_segs(meta.v, meta.lvl, meta.mask, &[Seg::Byte(out.to_vec())]);
    let close = |m: &Modules| {
        let d = drawn_blocks(m, meta.lvl, meta.mask);
        d.iter().zip(&s.blocks).zip(&blk(meta.v, meta.lvl).blocks).all(|((a, b), k)| {
            a.iter().zip(b).filter(|(x, y)| x != y).count() <= k.ecc.div_ceil(2)
        })
    };
    close(m) || close(&m.transpose())
}
