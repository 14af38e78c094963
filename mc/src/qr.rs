//! Reference model of a QR symbol, written from ISO/IEC 18004 and sharing no
//! code or table with the crate under test.
//!
//! Error-correction levels are numbered by their two format bits:
//! 0 = M, 1 = L, 2 = H, 3 = Q.

pub const M: usize = 0;
pub const L: usize = 1;
pub const H: usize = 2;
pub const Q: usize = 3;

// ISO/IEC 18004 table 9: error correction codewords per block, versions 1..40.
const ECC_PER_BLOCK: [[u8; 40]; 4] = [
    // M
    [
        10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28,
        28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    ],
    // L
    [
        7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30,
        30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    // H
    [
        17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30,
        30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    // Q
    [
        13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30,
        30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
];

// ISO/IEC 18004 table 9: number of error correction blocks, versions 1..40.
const NUM_BLOCKS: [[u8; 40]; 4] = [
    // M
    [
        1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23,
        25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49,
    ],
    // L
    [
        1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13,
        14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25,
    ],
    // H
    [
        1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35,
        37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81,
    ],
    // Q
    [
        1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29,
        34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68,
    ],
];

pub fn size(v: usize) -> usize {
    17 + 4 * v
}

/// Row/column coordinates of alignment pattern centres (ISO/IEC 18004 annex E).
pub fn align_pos(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 {
        26
    } else {
        (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2
    };
    let mut res: Vec<usize> = (0..n - 1).map(|i| size(v) - 7 - i * step).collect();
    res.push(6);
    res.reverse();
    res
}

/// A square of modules; `true` is dark.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Modules {
    pub n: usize,
    pub m: Vec<bool>,
}

impl Modules {
    pub fn new(n: usize) -> Self {
        Modules { n, m: vec![false; n * n] }
    }
    #[inline]
    pub fn get(&self, y: usize, x: usize) -> bool {
        self.m[y * self.n + x]
    }
    #[inline]
    pub fn set(&mut self, y: usize, x: usize, v: bool) {
        self.m[y * self.n + x] = v
    }
    #[inline]
    pub fn flip(&mut self, y: usize, x: usize) {
        self.m[y * self.n + x] ^= true
    }
    pub fn transpose(&self) -> Modules {
        let mut r = Modules::new(self.n);
        for y in 0..self.n {
            for x in 0..self.n {
                r.set(y, x, self.get(x, y));
            }
        }
        r
    }
    /// One of the eight symmetries of the square: bit 2 = transpose first, low
    /// two bits = quarter turns clockwise.
    pub fn dihedral(&self, d: usize) -> Modules {
        let mut g = if d & 4 != 0 { self.transpose() } else { self.clone() };
        for _ in 0..(d & 3) {
            let mut r = Modules::new(g.n);
            for y in 0..g.n {
                for x in 0..g.n {
                    r.set(x, g.n - 1 - y, g.get(y, x));
                }
            }
            g = r;
        }
        g
    }
}

/// Static geometry of one version.
pub struct Layout {
    pub v: usize,
    pub n: usize,
    /// function pattern / format / version modules
    pub func: Vec<bool>,
    /// colours of the function modules (format and version-independent part)
    pub base: Modules,
    /// data cells in placement order, (y, x)
    pub cells: Vec<(usize, usize)>,
}

impl Layout {
    pub fn new(v: usize) -> Layout {
        let n = size(v);
        let mut func = vec![false; n * n];
        let mut base = Modules::new(n);
        {
            let mut set = |y: usize, x: usize, c: bool| {
                func[y * n + x] = true;
                base.m[y * n + x] = c;
            };
            // timing
            for i in 0..n {
                set(6, i, i % 2 == 0);
                set(i, 6, i % 2 == 0);
            }
            // finders with separators
            for (cy, cx) in [(3i32, 3i32), (3, n as i32 - 4), (n as i32 - 4, 3)] {
                for dy in -4i32..=4 {
                    for dx in -4i32..=4 {
                        let d = dy.abs().max(dx.abs());
                        let (y, x) = (cy + dy, cx + dx);
                        if y >= 0 && x >= 0 && (y as usize) < n && (x as usize) < n {
                            set(y as usize, x as usize, d != 2 && d != 4);
                        }
                    }
                }
            }
            // alignment
            let ap = align_pos(v);
            let k = ap.len();
            for i in 0..k {
                for j in 0..k {
                    if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                        continue;
                    }
                    for dy in -2i32..=2 {
                        for dx in -2i32..=2 {
                            set(
                                (ap[i] as i32 + dy) as usize,
                                (ap[j] as i32 + dx) as usize,
                                dy.abs().max(dx.abs()) != 1,
                            );
                        }
                    }
                }
            }
            // format areas + dark module
            for i in 0..9 {
                if i != 6 {
                    set(i, 8, false);
                    set(8, i, false);
                }
            }
            for i in 0..8 {
                set(8, n - 1 - i, false);
                set(n - 1 - i, 8, false);
            }
            set(n - 8, 8, true);
            // version info
            if v >= 7 {
                let mut rem = v as u32;
                for _ in 0..12 {
                    rem = (rem << 1) ^ ((rem >> 11) * 0x1F25);
                }
                let bits = ((v as u32) << 12) | rem;
                for i in 0..18 {
                    let b = (bits >> i) & 1 != 0;
                    let a = n - 11 + i % 3;
                    let c = i / 3;
                    set(c, a, b);
                    set(a, c, b);
                }
            }
        }
        // placement order
        let mut cells = Vec::new();
        let mut right = n as i32 - 1;
        while right >= 1 {
            if right == 6 {
                right = 5;
            }
            for vert in 0..n {
                for j in 0..2 {
                    let x = (right - j) as usize;
                    let upward = ((right + 1) & 2) == 0;
                    let y = if upward { n - 1 - vert } else { vert };
                    if !func[y * n + x] {
                        cells.push((y, x));
                    }
                }
            }
            right -= 2;
        }
        Layout { v, n, func, base, cells }
    }
    pub fn total_codewords(&self) -> usize {
        self.cells.len() / 8
    }
}

pub fn mask_at(mask: usize, y: usize, x: usize) -> bool {
    match mask {
        0 => (x + y) % 2 == 0,
        1 => y % 2 == 0,
        2 => x % 3 == 0,
        3 => (x + y) % 3 == 0,
        4 => (x / 3 + y / 2) % 2 == 0,
        5 => x * y % 2 + x * y % 3 == 0,
        6 => (x * y % 2 + x * y % 3) % 2 == 0,
        7 => ((x + y) % 2 + x * y % 3) % 2 == 0,
        _ => unreachable!(),
    }
}

/// The 15 bit format codeword before the 0x5412 XOR.
pub fn format_codeword(data5: u16) -> u16 {
    let mut rem = data5;
    for _ in 0..10 {
        rem = (rem << 1) ^ ((rem >> 9) * 0x537);
    }
    (data5 << 10) | rem
}

/// Cells (y, x) of format bit i (i = 0 is the least significant) in copy 1.
pub fn format_cells_1() -> [(usize, usize); 15] {
    let mut r = [(0, 0); 15];
    for (i, c) in r.iter_mut().enumerate() {
        *c = match i {
            0..=5 => (i, 8),
            6 => (7, 8),
            7 => (8, 8),
            8 => (8, 7),
            _ => (8, 14 - i),
        };
    }
    r
}

/// Cells (y, x) of format bit i in copy 2.
pub fn format_cells_2(n: usize) -> [(usize, usize); 15] {
    let mut r = [(0, 0); 15];
    for (i, c) in r.iter_mut().enumerate() {
        *c = if i < 8 { (8, n - 1 - i) } else { (n - 15 + i, 8) };
    }
    r
}

pub fn put_format(g: &mut Modules, copy: usize, word_as_drawn: u16) {
    let cells = if copy == 0 { format_cells_1() } else { format_cells_2(g.n) };
    for (i, &(y, x)) in cells.iter().enumerate() {
        g.set(y, x, (word_as_drawn >> i) & 1 != 0);
    }
}

// ---------------------------------------------------------------- GF(256)

pub struct Gf {
    pub exp: [u8; 512],
    pub log: [usize; 256],
}

pub fn gf() -> &'static Gf {
    use std::sync::OnceLock;
    static G: OnceLock<Gf> = OnceLock::new();
    G.get_or_init(|| {
        let mut exp = [0u8; 512];
        let mut log = [0usize; 256];
        let mut x: u32 = 1;
        for i in 0..255 {
            exp[i] = x as u8;
            log[x as usize] = i;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11d;
            }
        }
        for i in 255..512 {
            exp[i] = exp[i - 255];
        }
        Gf { exp, log }
    })
}

impl Gf {
    #[inline]
    pub fn mul(&self, a: u8, b: u8) -> u8 {
        if a == 0 || b == 0 {
            0
        } else {
            self.exp[self.log[a as usize] + self.log[b as usize]]
        }
    }
    #[inline]
    pub fn inv(&self, a: u8) -> u8 {
        assert!(a != 0);
        self.exp[255 - self.log[a as usize]]
    }
    #[inline]
    pub fn alpha(&self, e: usize) -> u8 {
        self.exp[e % 255]
    }
}

/// Remainder of data(x) * x^necc modulo the RS generator polynomial.
pub fn rs_parity(data: &[u8], necc: usize) -> Vec<u8> {
    let g = gf();
    // generator, highest degree first, monic term dropped
    let mut gen = vec![0u8; necc];
    gen[necc - 1] = 1;
    let mut root = 1u8;
    for _ in 0..necc {
        for j in 0..necc {
            gen[j] = g.mul(gen[j], root);
            if j + 1 < necc {
                gen[j] ^= gen[j + 1];
            }
        }
        root = g.mul(root, 2);
    }
    let mut rem = vec![0u8; necc];
    for &b in data {
        let f = b ^ rem[0];
        rem.rotate_left(1);
        rem[necc - 1] = 0;
        for j in 0..necc {
            rem[j] ^= g.mul(gen[j], f);
        }
    }
    rem
}

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub data: usize,
    pub ecc: usize,
}

impl Block {
    pub fn t(&self) -> usize {
        self.ecc / 2
    }
    pub fn len(&self) -> usize {
        self.data + self.ecc
    }
}

/// Block structure of one (version, level).
pub struct Blocks {
    pub blocks: Vec<Block>,
    pub total: usize,
    pub data_total: usize,
    /// for every interleaved codeword position: (block, index in block)
    pub order: Vec<(usize, usize)>,
}

pub fn total_codewords(v: usize) -> usize {
    // module count formula
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r / 8
}

impl Blocks {
    pub fn new(v: usize, lvl: usize) -> Blocks {
        let total = total_codewords(v);
        let nb = NUM_BLOCKS[lvl][v - 1] as usize;
        let ecc = ECC_PER_BLOCK[lvl][v - 1] as usize;
        let short = total / nb;
        let nlong = total % nb;
        let mut blocks = Vec::new();
        for i in 0..nb {
            let len = short + if i >= nb - nlong { 1 } else { 0 };
            blocks.push(Block { data: len - ecc, ecc });
        }
        let data_total = blocks.iter().map(|b| b.data).sum();
        let maxd = blocks.iter().map(|b| b.data).max().unwrap();
        let mut order = Vec::new();
        for j in 0..maxd {
            for (bi, b) in blocks.iter().enumerate() {
                if j < b.data {
                    order.push((bi, j));
                }
            }
        }
        for j in 0..ecc {
            for (bi, b) in blocks.iter().enumerate() {
                order.push((bi, b.data + j));
            }
        }
        assert_eq!(order.len(), total);
        Blocks { blocks, total, data_total, order }
    }

    /// Split data codewords into blocks and append parity.
    pub fn encode(&self, data: &[u8]) -> Vec<Vec<u8>> {
        assert_eq!(data.len(), self.data_total);
        let mut out = Vec::new();
        let mut p = 0;
        for b in &self.blocks {
            let mut blk = data[p..p + b.data].to_vec();
            let par = rs_parity(&blk, b.ecc);
            blk.extend(par);
            out.push(blk);
            p += b.data;
        }
        out
    }

    pub fn interleave(&self, blocks: &[Vec<u8>]) -> Vec<u8> {
        self.order.iter().map(|&(b, i)| blocks[b][i]).collect()
    }
}

/// Draw a symbol from interleaved codewords.
pub fn draw(lay: &Layout, lvl: usize, mask: usize, codewords: &[u8]) -> Modules {
    let mut g = lay.base.clone();
    for (i, &(y, x)) in lay.cells.iter().enumerate() {
        let bit = if i / 8 < codewords.len() {
            (codewords[i / 8] >> (7 - i % 8)) & 1 != 0
        } else {
            false
        };
        g.set(y, x, bit ^ mask_at(mask, y, x));
    }
    let w = format_codeword(((lvl as u16) << 3) | mask as u16) ^ 0x5412;
    put_format(&mut g, 0, w);
    put_format(&mut g, 1, w);
    // dark module is part of base
    g.set(lay.n - 8, 8, true);
    g
}

// ---------------------------------------------------------------- payload

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Bits(pub Vec<bool>);

impl Bits {
    pub fn push(&mut self, val: usize, n: usize) {
        for i in (0..n).rev() {
            self.0.push((val >> i) & 1 != 0);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

pub fn class(v: usize) -> usize {
    if v <= 9 {
        0
    } else if v <= 26 {
        1
    } else {
        2
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Num(Vec<u8>),
    Alnum(Vec<u8>),
    Byte(Vec<u8>),
    /// 13-bit values
    Kanji(Vec<u16>),
    Eci(u32),
}

impl Seg {
    pub fn count_bits(&self, v: usize) -> usize {
        let c = class(v);
        match self {
            Seg::Num(_) => [10, 12, 14][c],
            Seg::Alnum(_) => [9, 11, 13][c],
            Seg::Byte(_) => [8, 16, 16][c],
            Seg::Kanji(_) => [8, 10, 12][c],
            Seg::Eci(_) => 0,
        }
    }
    pub fn emit(&self, v: usize, b: &mut Bits) {
        let cb = self.count_bits(v);
        match self {
            Seg::Num(d) => {
                b.push(1, 4);
                b.push(d.len(), cb);
                for c in d.chunks(3) {
                    let val = c.iter().fold(0usize, |a, &x| a * 10 + (x - b'0') as usize);
                    b.push(val, [0, 4, 7, 10][c.len()]);
                }
            }
            Seg::Alnum(d) => {
                b.push(2, 4);
                b.push(d.len(), cb);
                let ix = |x: u8| ALNUM.iter().position(|&a| a == x).unwrap();
                for c in d.chunks(2) {
                    if c.len() == 2 {
                        b.push(ix(c[0]) * 45 + ix(c[1]), 11);
                    } else {
                        b.push(ix(c[0]), 6);
                    }
                }
            }
            Seg::Byte(d) => {
                b.push(4, 4);
                b.push(d.len(), cb);
                for &x in d {
                    b.push(x as usize, 8);
                }
            }
            Seg::Kanji(d) => {
                b.push(8, 4);
                b.push(d.len(), cb);
                for &x in d {
                    b.push(x as usize, 13);
                }
            }
            Seg::Eci(e) => {
                b.push(7, 4);
                let e = *e as usize;
                if e < 128 {
                    b.push(e, 8);
                } else if e < 16384 {
                    b.push(0b10, 2);
                    b.push(e, 14);
                } else {
                    b.push(0b110, 3);
                    b.push(e, 21);
                }
            }
        }
    }
    /// The bytes this segment contributes to the decoded output.
    pub fn output(&self, out: &mut Vec<u8>) {
        match self {
            Seg::Num(d) | Seg::Alnum(d) | Seg::Byte(d) => out.extend_from_slice(d),
            Seg::Kanji(d) => {
                for &v in d {
                    out.extend_from_slice(&kanji_sjis(v));
                }
            }
            Seg::Eci(_) => {}
        }
    }
}

/// Shift-JIS bytes of a 13 bit kanji value (ISO/IEC 18004 7.4.6, inverted).
pub fn kanji_sjis(v: u16) -> [u8; 2] {
    let ms = v / 0xc0;
    let ls = v % 0xc0;
    let inter = (ms << 8) | ls;
    // 0x0000..=0x1EBC came from 0x8140..=0x9FFC, the rest from 0xE040..=0xEBBF
    let s = if inter <= 0x9ffc - 0x8140 { inter + 0x8140 } else { inter + 0xc140 };
    [(s >> 8) as u8, s as u8]
}

/// Terminate, pad to a byte boundary and fill with pad codewords.
pub fn finish(mut b: Bits, data_bytes: usize) -> Vec<u8> {
    let cap = data_bytes * 8;
    assert!(b.len() <= cap);
    let term = (cap - b.len()).min(4);
    b.push(0, term);
    while b.len() % 8 != 0 {
        b.0.push(false);
    }
    let mut out = pack(&b);
    let mut pad = 0xECu8;
    while out.len() < data_bytes {
        out.push(pad);
        pad ^= 0xEC ^ 0x11;
    }
    out
}

pub fn pack(b: &Bits) -> Vec<u8> {
    let mut out = vec![0u8; b.len().div_ceil(8)];
    for (i, &x) in b.0.iter().enumerate() {
        if x {
            out[i / 8] |= 0x80 >> (i % 8);
        }
    }
    out
}

pub fn encode_segs(v: usize, segs: &[Seg]) -> (Bits, Vec<u8>) {
    let mut b = Bits::default();
    let mut out = Vec::new();
    for s in segs {
        s.emit(v, &mut b);
        s.output(&mut out);
    }
    (b, out)
}
