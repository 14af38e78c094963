//! Shared harness pieces: cached geometry, adapters to the crate's public
//! API, deterministic content generators.

use crate::qr::*;
use rqrr::{BitGrid, DeQRError, Grid, MetaData};
use std::io::Write;
use std::sync::OnceLock;

pub fn lay(v: usize) -> &'static Layout {
    static C: OnceLock<Vec<Layout>> = OnceLock::new();
    &C.get_or_init(|| (1..=40).map(Layout::new).collect())[v - 1]
}

pub fn blk(v: usize, lvl: usize) -> &'static Blocks {
    static C: OnceLock<Vec<Blocks>> = OnceLock::new();
    &C.get_or_init(|| (0..160).map(|i| Blocks::new(i / 4 + 1, i % 4)).collect())[(v - 1) * 4 + lvl]
}

pub const LVL: [&str; 4] = ["M", "L", "H", "Q"];

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a).wrapping_add(b))
}

/// A bit grid over a module square.  Being asked for a cell outside the square
/// is a violation of the BitGrid contract and panics.
pub struct MGrid<'a>(pub &'a Modules);
impl BitGrid for MGrid<'_> {
    fn size(&self) -> usize {
        self.0.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        if y >= self.0.n || x >= self.0.n {
            panic!("cell ({y},{x}) outside of the {0}x{0} grid was requested", self.0.n);
        }
        self.0.get(y, x)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub v: usize,
    pub lvl: usize,
    pub mask: usize,
}
impl From<MetaData> for Meta {
    fn from(m: MetaData) -> Meta {
        Meta { v: m.version.0, lvl: m.ecc_level as usize, mask: m.mask as usize }
    }
}

/// decode_to into memory: everything written, and the verdict.
pub fn dec(m: &Modules) -> (Vec<u8>, Result<Meta, DeQRError>) {
    let mut out = Vec::new();
    let r = Grid::new(MGrid(m)).decode_to(&mut out);
    (out, r.map(Meta::from))
}
pub fn dec_str(m: &Modules) -> Result<(Meta, String), DeQRError> {
    Grid::new(MGrid(m)).decode().map(|(a, b)| (a.into(), b))
}
pub fn dec_grid<G: BitGrid>(g: &Grid<G>) -> (Vec<u8>, Result<Meta, DeQRError>) {
    let mut out = Vec::new();
    let r = g.decode_to(&mut out);
    (out, r.map(Meta::from))
}
#[allow(dead_code)]
pub fn dec_into<W: Write>(m: &Modules, w: W) -> Result<Meta, DeQRError> {
    Grid::new(MGrid(m)).decode_to(w).map(Meta::from)
}

pub fn grid_modules<G: BitGrid>(g: &G) -> Modules {
    let n = g.size();
    let mut m = Modules::new(n);
    for y in 0..n {
        for x in 0..n {
            m.set(y, x, g.bit(y, x));
        }
    }
    m
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(40).map(|x| format!("{x:02x}")).collect();
    if b.len() > 40 {
        format!("{s}..({} bytes)", b.len())
    } else {
        s
    }
}

pub const KINDS: [&str; 4] = ["byte", "alnum", "num", "kanji"];

pub fn seg_bits(kind: usize, v: usize, n: usize) -> usize {
    let c = class(v);
    4 + match kind {
        0 => [8, 16, 16][c] + 8 * n,
        1 => [9, 11, 13][c] + n / 2 * 11 + n % 2 * 6,
        2 => [10, 12, 14][c] + n / 3 * 10 + [0, 4, 7][n % 3],
        _ => [8, 10, 12][c] + 13 * n,
    }
}

/// Largest number of characters of that kind that fits.
pub fn cap(kind: usize, v: usize, lvl: usize) -> usize {
    let bits = blk(v, lvl).data_total * 8;
    let (mut lo, mut hi) = (0, bits);
    while lo < hi {
        let mid = (lo + hi).div_ceil(2);
        if seg_bits(kind, v, mid) <= bits {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    lo
}

/// One segment of `n` characters with position dependent content.
pub fn seg_of(kind: usize, n: usize, seed: u64) -> Seg {
    let h = |i: usize, m: u64| mix2(seed, i as u64) % m;
    match kind {
        // printable ASCII so that the String interface applies as well
        0 => Seg::Byte((0..n).map(|i| 0x20 + h(i, 95) as u8).collect()),
        1 => Seg::Alnum((0..n).map(|i| ALNUM[h(i, 45) as usize]).collect()),
        2 => Seg::Num((0..n).map(|i| b'0' + h(i, 10) as u8).collect()),
        _ => Seg::Kanji((0..n).map(|i| kanji_valid()[h(i, kanji_valid().len() as u64) as usize]).collect()),
    }
}

/// 13 bit values that stand for a Shift-JIS double byte character.
pub fn kanji_valid() -> &'static [u16] {
    static C: OnceLock<Vec<u16>> = OnceLock::new();
    C.get_or_init(|| (0..8192u16).filter(|&v| kanji_defined(v)).collect())
}
pub fn kanji_defined(v: u16) -> bool {
    let [hi, lo] = kanji_sjis(v);
    let w = (hi as u16) << 8 | lo as u16;
    ((0x8140..=0x9ffc).contains(&w) || (0xe040..=0xebbf).contains(&w)) && lo != 0x7f && (0x40..=0xfc).contains(&lo)
        && v % 0xc0 <= 0xbc
}

#[derive(Clone)]
pub struct Symbol {
    pub v: usize,
    pub lvl: usize,
    pub mask: usize,
    pub out: Vec<u8>,
    /// codewords per block, parity included
    pub blocks: Vec<Vec<u8>>,
}

impl Symbol {
    pub fn from_data(v: usize, lvl: usize, mask: usize, data: &[u8], out: Vec<u8>) -> Symbol {
        Symbol { v, lvl, mask, out, blocks: blk(v, lvl).encode(data) }
    }
    pub fn from_segs(v: usize, lvl: usize, mask: usize, segs: &[Seg]) -> Symbol {
        let (b, out) = encode_segs(v, segs);
        let data = finish(b, blk(v, lvl).data_total);
        Symbol::from_data(v, lvl, mask, &data, out)
    }
    pub fn full(v: usize, lvl: usize, mask: usize, kind: usize, seed: u64) -> Symbol {
        Symbol::from_segs(v, lvl, mask, &[seg_of(kind, cap(kind, v, lvl), seed)])
    }
    pub fn modules(&self) -> Modules {
        self.modules_of(&self.blocks)
    }
    pub fn modules_of(&self, blocks: &[Vec<u8>]) -> Modules {
        draw(lay(self.v), self.lvl, self.mask, &blk(self.v, self.lvl).interleave(blocks))
    }
    pub fn meta(&self) -> Meta {
        Meta { v: self.v, lvl: self.lvl, mask: self.mask }
    }
}

/// Compare a decode with the content the symbol was made from.
pub fn expect_symbol(c: &mut crate::engine::Case, s: &Symbol, m: &Modules) {
    c.call();
    let (out, r) = dec(m);
    match r {
        Ok(meta) if meta == s.meta() && out == s.out => {}
        Ok(meta) => c.fail(format!(
            "decoded {meta:?} {} but the symbol is {:?} {}",
            hex(&out),
            s.meta(),
            hex(&s.out)
        )),
        Err(e) => c.fail(format!("decoding fails with {e:?}, the symbol holds {}", hex(&s.out))),
    }
}

/// All k-subsets of 0..n by rank (combinatorial number system).
pub fn binom(n: usize, k: usize) -> u64 {
    if k > n {
        return 0;
    }
    let mut r = 1u128;
    for i in 0..k {
        r = r * (n - i) as u128 / (i + 1) as u128;
    }
    r as u64
}
pub fn subset(mut rank: u64, n: usize, k: usize) -> Vec<usize> {
    let mut r = Vec::with_capacity(k);
    let mut hi = n;
    for j in (1..=k).rev() {
        let mut c = hi - 1;
        while binom(c, j) > rank {
            c -= 1;
        }
        rank -= binom(c, j);
        r.push(c);
        hi = c;
    }
    r.reverse();
    r
}
