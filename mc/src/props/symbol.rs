//! C01 round trip, C02 raw stream, C05 format information, C08 totality of
//! decoding, C09 mirrored symbols.

use crate::engine::*;
use crate::model::*;
use crate::qr::*;
use crate::util::*;
use rqrr::{BitGrid, DeQRError, Grid};

fn a(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}

fn round_trip(s: &Symbol) -> Case {
    let mut c = Case::new();
    let m = s.modules();
    c.state(hash_bools(s.v as u64, &m.m));
    expect_symbol(&mut c, s, &m);
    // the String interface agrees
    c.call();
    match (dec_str(&m), String::from_utf8(s.out.clone())) {
        (Ok((meta, t)), Ok(u)) if meta == s.meta() && t == u => c.out("text"),
        (Err(DeQRError::EncodingError), Err(_)) => c.out("binary"),
        (x, _) => c.fail(format!("decode() answers {x:?} for content {}", hex(&s.out))),
    }
    c
}

pub fn c01(thorough: bool) -> Property {
    let mut f = Vec::new();
    let nseed = if thorough { 4 } else { 1 };
    let cfg = move |i: u64| {
        let mut x = Ix(i);
        (x.take(40) + 1, x.take(4), x.take(8), x.take(4), x.take(nseed) as u64)
    };
    f.push(Family::new(
        "configurations",
        40 * 4 * 8 * 4 * nseed as u64,
        "all 40 versions x 4 levels x 8 masks x {byte, alphanumeric, numeric, kanji} filled to capacity",
        move |i| {
            let (v, l, m, k, _) = cfg(i);
            format!("version {v}-{} mask {m}, {} x {}", LVL[l], cap(k, v, l), KINDS[k])
        },
        move |i| {
            let (v, l, m, k, sd) = cfg(i);
            round_trip(&Symbol::full(v, l, m, k, mix(i ^ (sd << 40))))
        },
    ));
    // every length
    let mut cases: Vec<(usize, usize, usize, usize)> = Vec::new();
    for v in 1..=40 {
        for l in 0..4 {
            for k in 0..4 {
                let cp = cap(k, v, l);
                let all = if thorough { v <= 20 || l == L && k < 2 } else { v <= 4 };
                let edge = [127, 128, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 2047, 2048, 4095, 4096];
                for n in 0..=cp {
                    if all || n < 4 || n + 4 > cp || edge.contains(&n) {
                        cases.push((v, l, k, n));
                    }
                }
            }
        }
    }
    cases.sort_by_key(|c| std::cmp::Reverse(c.0));
    let c2 = cases.clone();
    f.push(Family::new(
        "lengths",
        cases.len() as u64,
        if thorough {
            "every length 0..=capacity for versions 1-20 (all levels and kinds) and, bytes and alphanumeric at level L, 21-40; elsewhere 0-3, powers of two and their neighbours, capacity-3..capacity"
        } else {
            "every length 0..=capacity for versions 1-4 (all levels and kinds); elsewhere 0-3, powers of two and their neighbours, capacity-3..capacity"
        },
        move |i| {
            let (v, l, k, n) = c2[i as usize];
            format!("version {v}-{} {n} x {}", LVL[l], KINDS[k])
        },
        move |i| {
            let (v, l, k, n) = cases[i as usize];
            round_trip(&Symbol::from_segs(v, l, (mix(i) % 8) as usize, &[seg_of(k, n, i)]))
        },
    ));
    // every value in every position
    let vs: &'static [(usize, usize)] = &[(1, L), (1, H), (2, M), (10, H), (27, H)];
    let nv = if thorough { 5 } else { 4 };
    let posn = |v: usize, l: usize| cap(0, v, l);
    let mut pc = Vec::new();
    for &(v, l) in &vs[..nv] {
        let cp = posn(v, l);
        let stride = if v >= 10 && !thorough { 13 } else { 1 };
        for p in (0..cp).step_by(stride) {
            pc.push((v, l, p));
        }
    }
    let pc2 = pc.clone();
    let total = pc.len() as u64 * if thorough { 256 } else { 256 };
    f.push(Family::new(
        "byte values",
        total,
        "every byte value at every byte position (every 13th for version 10 in the quick tier) of full 1-L, 1-H, 2-M, 10-H symbols (thorough: 27-H as well)",
        move |i| {
            let (v, l, p) = pc2[(i / 256) as usize];
            format!("version {v}-{} byte {:#04x} at position {p}", LVL[l], i % 256)
        },
        move |i| {
            let (v, l, p) = pc[(i / 256) as usize];
            let mut d: Vec<u8> = (0..cap(0, v, l)).map(|k| 0x30 + (k % 64) as u8).collect();
            d[p] = (i % 256) as u8;
            round_trip(&Symbol::from_segs(v, l, p % 8, &[Seg::Byte(d)]))
        },
    ));
    Property {
        id: "C01",
        assumptions: a(&[
            "the reference encoder (qr.rs) implements ISO/IEC 18004; it shares no code or table with the crate",
            "content alphabets are position dependent pseudo-random characters, not all strings",
        ]),
        families: f,
    }
}

// ------------------------------------------------------------------ C02

fn check_raw(c: &mut Case, m: &Modules) {
    let v = (m.n - 17) / 4;
    let l = lay(v);
    c.call();
    let r = Grid::new(MGrid(m)).get_raw_data();
    match (ref_read_format(m), r) {
        (None, Err(DeQRError::FormatEcc)) => c.out("FormatEcc"),
        (Some(f), Ok((meta, raw))) => {
            let meta = Meta::from(meta);
            let want = Meta { v, lvl: (f >> 3) as usize, mask: (f & 7) as usize };
            if meta != want {
                c.fail(format!("metadata {meta:?}, drawn {want:?}"));
            }
            if raw.len != l.cells.len() {
                c.fail(format!("{} bits, the symbol has {} data modules", raw.len, l.cells.len()));
                return;
            }
            let mut exp = vec![0u8; raw.data.len()];
            for (k, &(y, x)) in l.cells.iter().enumerate() {
                if m.get(y, x) {
                    exp[k / 8] |= 0x80 >> (k % 8);
                }
            }
            if let Some(k) = (0..exp.len()).find(|&k| exp[k] != raw.data[k]) {
                c.fail(format!("byte {k} of the raw stream is {:#04x}, drawn {:#04x}", raw.data[k], exp[k]));
            }
            c.out("raw");
        }
        (f, r) => c.fail(format!("format {f:?} but get_raw_data gives {:?}", r.map(|x| x.1.len))),
    }
}

pub fn c02(thorough: bool) -> Property {
    let mut f = Vec::new();
    let dec = |i: u64| {
        let mut x = Ix(i);
        (x.take(17), x.take(2) == 1, x.take(32) as u16, x.take(40) + 1)
    };
    f.push(Family::new(
        "cell code",
        17 * 2 * 32 * 40,
        "all 40 versions x 32 format values x 17 patterns that number every module in binary (plus one constant), and their complements: the read position of every single data module is determined uniquely",
        move |i| {
            let (k, inv, d, v) = dec(i);
            format!("version {v} format {d:05b} pattern bit {k} inverted {inv}")
        },
        move |i| {
            let (k, inv, d, v) = dec(i);
            let n = size(v);
            let mut m = Modules::new(n);
            for y in 0..n {
                for x in 0..n {
                    m.set(y, x, (((y * n + x) >> k) & 1 == 1) ^ inv);
                }
            }
            let w = format_codeword(d) ^ 0x5412;
            put_format(&mut m, 0, w);
            put_format(&mut m, 1, w);
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            check_raw(&mut c, &m);
            c
        },
    ));
    // single modules
    let vmax = if thorough { 40 } else { 14 };
    let tot: u64 = (1..=vmax).map(|v| (size(v) * size(v)) as u64).sum();
    let loc = move |i: u64| {
        let mut i = i as usize;
        for v in 1..=vmax {
            let n = size(v);
            if i < n * n {
                return (v, i / n, i % n);
            }
            i -= n * n;
        }
        unreachable!()
    };
    f.push(Family::new(
        "single module",
        tot,
        format!("every single module flipped in a drawn symbol, versions 1..={vmax}; format modules included"),
        move |i| {
            let (v, y, x) = loc(i);
            format!("version {v}, module ({y},{x}) flipped")
        },
        move |i| {
            let (v, y, x) = loc(i);
            let mut m = base_symbol(v).clone();
            m.flip(y, x);
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            check_raw(&mut c, &m);
            c
        },
    ));
    // format damage as seen by get_raw_data
    f.push(Family::new(
        "format words",
        32768 * 3,
        "version 2: all 32768 words in the first copy x second copy {contradicting, undecodable, equal}",
        |i| format!("copy 1 drawn {:015b}, copy 2 choice {}", i % 32768, i / 32768),
        |i| {
            let w = (i % 32768) as u16;
            let mut m = base_symbol(2).clone();
            put_format(&mut m, 0, w);
            put_format(&mut m, 1, [format_codeword(0x15) ^ 0x5412, undecodable()[0], w][(i / 32768) as usize]);
            let mut c = Case::new();
            c.state(hash_bools(2, &m.m));
            check_raw(&mut c, &m);
            c
        },
    ));
    // the drawn symbols themselves, straight and mirrored
    f.push(Family::new(
        "symbols",
        1280 * 2,
        "all 1280 configurations at capacity, straight and mirrored (a mirrored symbol is reported as drawn)",
        |i| format!("configuration {} mirrored {}", i / 2, i % 2),
        |i| {
            let mut x = Ix(i / 2);
            let s = Symbol::full(x.take(40) + 1, x.take(4), x.take(8), 0, i);
            let m = if i % 2 == 1 { s.modules().transpose() } else { s.modules() };
            let mut c = Case::new();
            c.state(hash_bools(2, &m.m));
            check_raw(&mut c, &m);
            c
        },
    ));
    Property {
        id: "C02",
        assumptions: a(&["module placement order from ISO/IEC 18004 7.7.3 as drawn by the reference encoder"]),
        families: f,
    }
}

pub fn base_symbol(v: usize) -> &'static Modules {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<OnceLock<Modules>>> = OnceLock::new();
    C.get_or_init(|| (0..41).map(|_| OnceLock::new()).collect())[v]
        .get_or_init(|| Symbol::full(v, v % 4, v % 8, 0, v as u64).modules())
}

/// Words with no format codeword within distance 3.
pub fn undecodable() -> &'static [u16] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<u16>> = OnceLock::new();
    C.get_or_init(|| (0..32768).filter(|&w| ref_format(w).is_none()).collect())
}

/// All 15 bit masks of weight <= k, by weight.
pub fn weights(k: u32) -> Vec<u16> {
    let mut v: Vec<u16> = (0..32768u16).filter(|w| w.count_ones() <= k).collect();
    v.sort_by_key(|w| w.count_ones());
    v
}

// ------------------------------------------------------------------ C05

fn check_format(c: &mut Case, m: &Modules) {
    let v = (m.n - 17) / 4;
    c.call();
    let r = Grid::new(MGrid(m)).get_raw_data().map(|x| Meta::from(x.0));
    let want = ref_read_format(m)
        .map(|f| Meta { v, lvl: (f >> 3) as usize, mask: (f & 7) as usize })
        .ok_or(DeQRError::FormatEcc);
    c.out(if want.is_ok() { "format" } else { "FormatEcc" });
    if r != want {
        c.fail(format!("the crate reads {r:?}, drawn is {want:?}"));
    }
}

pub fn c05(thorough: bool) -> Property {
    let mut f = Vec::new();
    let second: Vec<u16> = vec![
        format_codeword(0) ^ 0x5412,
        format_codeword(0x1f) ^ 0x5412,
        format_codeword(0x0a) ^ 0x5412 ^ 0b100_0000_0010_0001,
        format_codeword(0x15) ^ 0x5412 ^ 0b10,
        undecodable()[0],
        undecodable()[undecodable().len() / 2],
    ];
    let s2 = second.clone();
    f.push(Family::new(
        "copy 1 words",
        32768 * 6,
        "version 1: all 32768 words in copy 1 x 6 second copies (clean, damaged, undecodable)",
        move |i| format!("copy 1 drawn {:015b}, copy 2 drawn {:015b}", i % 32768, s2[(i / 32768) as usize]),
        move |i| {
            let mut m = base_symbol(1).clone();
            put_format(&mut m, 0, (i % 32768) as u16);
            put_format(&mut m, 1, second[(i / 32768) as usize]);
            let mut c = Case::new();
            c.state(hash_u64s(&[i]));
            check_format(&mut c, &m);
            c
        },
    ));
    let nu = if thorough { 64 } else { 6 };
    let first = move |k: usize| undecodable()[k * (undecodable().len() - 1) / (nu - 1)];
    f.push(Family::new(
        "copy 2 words",
        32768 * nu as u64,
        format!("version 1: {nu} undecodable words in copy 1 x all 32768 words in copy 2"),
        move |i| format!("copy 1 drawn {:015b}, copy 2 drawn {:015b}", first((i / 32768) as usize), i % 32768),
        move |i| {
            let mut m = base_symbol(1).clone();
            put_format(&mut m, 0, first((i / 32768) as usize));
            put_format(&mut m, 1, (i % 32768) as u16);
            let mut c = Case::new();
            c.state(hash_u64s(&[i]));
            check_format(&mut c, &m);
            c
        },
    ));
    // all versions, all values, all light damage
    let ws = weights(if thorough { 3 } else { 2 });
    let nw = ws.len();
    let w2 = ws.clone();
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (x.take(nw), x.take(32) as u16, x.take(2), x.take(40) + 1)
    };
    f.push(Family::new(
        "damage everywhere",
        (nw * 32 * 2 * 40) as u64,
        format!(
            "all 40 versions x 32 format values x every pattern of at most {} wrong modules, in copy 1 (copy 2 contradicting) and in copy 2 (copy 1 undecodable)",
            if thorough { 3 } else { 2 }
        ),
        move |i| {
            let (w, d, cp, v) = dc(i);
            format!("version {v}, format {d:05b}, damage {:015b} in copy {}", w2[w], cp + 1)
        },
        move |i| {
            let (w, d, cp, v) = dc(i);
            let mut m = base_symbol(v).clone();
            let word = format_codeword(d) ^ 0x5412 ^ ws[w];
            if cp == 0 {
                put_format(&mut m, 0, word);
                put_format(&mut m, 1, format_codeword(d ^ 0x1b) ^ 0x5412);
            } else {
                put_format(&mut m, 0, undecodable()[(mix(i) % undecodable().len() as u64) as usize]);
                put_format(&mut m, 1, word);
            }
            let mut c = Case::new();
            c.state(hash_u64s(&[i]));
            check_format(&mut c, &m);
            c
        },
    ));
    // complete decode with damaged format information
    let w3 = weights(3);
    let n3 = w3.len() as u64;
    let w4 = w3.clone();
    f.push(Family::new(
        "decode with damage",
        n3 * 32 * 3,
        "version 1, all 32 format values x all 576 patterns of at most 3 wrong modules x {copy 1 damaged, copy 2 damaged, copy 1 lost and copy 2 damaged}: content and metadata unchanged",
        move |i| {
            let mut x = Ix(i);
            format!("damage {:015b} format {:05b} case {}", w4[x.take(n3 as usize)], x.take(32), x.take(3))
        },
        move |i| {
            let mut x = Ix(i);
            let (w, d, k) = (w3[x.take(n3 as usize)], x.take(32), x.take(3));
            let s = Symbol::full(1, d >> 3, d & 7, 0, d as u64);
            let mut m = s.modules();
            let word = format_codeword(d as u16) ^ 0x5412;
            match k {
                0 => put_format(&mut m, 0, word ^ w),
                1 => put_format(&mut m, 1, word ^ w),
                _ => {
                    put_format(&mut m, 0, undecodable()[(mix(i) % undecodable().len() as u64) as usize]);
                    put_format(&mut m, 1, word ^ w)
                }
            }
            let mut c = Case::new();
            c.state(hash_bools(1, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    // both copies undecodable
    let lost = undecodable().len() as u64;
    f.push(Family::new(
        "format lost",
        lost * if thorough { 32 } else { 4 },
        "version 1, every undecodable word in copy 1 with several undecodable words in copy 2: FormatEcc (unless the mirrored reading is valid), nothing written",
        move |i| format!("copy 1 {:015b}", undecodable()[(i % lost) as usize]),
        move |i| {
            let mut m = base_symbol(1).clone();
            put_format(&mut m, 0, undecodable()[(i % lost) as usize]);
            put_format(&mut m, 1, undecodable()[(mix(i) % lost) as usize]);
            let mut c = Case::new();
            c.state(hash_bools(1, &m.m));
            c.call();
            let e = ref_decode(&m);
            let (out, r) = dec(&m);
            match judge(&e, &out, &r, None) {
                Ok(o) => c.out(o),
                Err(s) => c.fail(s),
            }
            c
        },
    ));
    Property {
        id: "C05",
        assumptions: a(&["format code BCH(15,5) and its module positions from ISO/IEC 18004 7.9"]),
        families: f,
    }
}

// ------------------------------------------------------------------ C08

struct FnGrid<F: Fn(usize, usize) -> bool>(usize, F);
impl<F: Fn(usize, usize) -> bool> BitGrid for FnGrid<F> {
    fn size(&self) -> usize {
        self.0
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        if y >= self.0 || x >= self.0 {
            panic!("cell ({y},{x}) outside of the {0}x{0} grid was requested", self.0);
        }
        (self.1)(y, x)
    }
}

fn pattern(k: usize, n: usize, y: usize, x: usize) -> bool {
    match k {
        0 => false,
        1 => true,
        2 => (x + y) % 2 == 0,
        3 => (x * 7 + y * 3) % 5 < 2,
        4 => x < n / 2,
        5 => mix2(k as u64, (y * 65536 + x) as u64) & 1 == 1,
        6 => mix2(k as u64, (y * 65536 + x) as u64) & 3 == 1,
        _ => x == y || (x as i64 - y as i64) % 3 == 1,
    }
}

pub fn c08(thorough: bool) -> Property {
    let mut f = Vec::new();
    let sizes: Vec<usize> = (0..=260)
        .chain([511, 512, 1000, 4096, 65535, 65536, 1 << 31, (1 << 32) + 21, usize::MAX - 1, usize::MAX])
        .collect();
    let (ns, sz2) = (sizes.len(), sizes.clone());
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (x.take(ns), x.take(8), x.take(33))
    };
    f.push(Family::new(
        "sizes",
        (ns * 8 * 33) as u64,
        "grids of every side 0..=260 and extreme sides up to usize::MAX x 8 fill patterns x {no valid format, each of the 32 formats}: returns, only cells inside the grid are read, sides that are no QR side are InvalidVersion",
        move |i| {
            let (s, p, d) = dc(i);
            format!("grid of side {} pattern {p} format {d}", sz2[s])
        },
        move |i| {
            let (s, p, d) = dc(i);
            let n = sizes[s];
            let mut c = Case::new();
            c.state(hash_u64s(&[n as u64, p as u64, d as u64]));
            let word = if d < 32 { Some(format_codeword(d as u16) ^ 0x5412) } else { None };
            let bit = |y: usize, x: usize| {
                if let Some(w) = word {
                    if let Some(k) = format_cells_1().iter().position(|&q| q == (y, x)) {
                        return (w >> k) & 1 == 1;
                    }
                }
                pattern(p, n, y, x)
            };
            let g = Grid::new(FnGrid(n, bit));
            c.calls += 2;
            let (out, r) = dec_grid(&g);
            let raw = g.get_raw_data().map(|x| x.1.len);
            if n < 21 || n > 180 {
                c.out("InvalidVersion");
                if r != Err(DeQRError::InvalidVersion) || !out.is_empty() {
                    c.fail(format!("decode_to gives {r:?} for a grid of side {n}"));
                }
                if raw != Err(DeQRError::InvalidVersion) {
                    c.fail(format!("get_raw_data gives {raw:?} for a grid of side {n}"));
                }
            } else if (n - 17) % 4 == 0 {
                let m = grid_modules(&g.grid);
                let e = ref_decode(&m);
                match judge(&e, &out, &r, None) {
                    Ok(o) => c.out(o),
                    Err(s) => c.fail(s),
                }
            } else {
                c.out("no QR side");
            }
            c
        },
    ));
    // neighbourhood of a valid symbol
    let lv: Vec<usize> = if thorough { vec![0, 1, 2, 3] } else { vec![L, H] };
    let nl = lv.len() as u64;
    let pairs = 441 * 441;
    f.push(Family::new(
        "two modules",
        pairs * nl,
        "version 1: every symbol that differs from a valid one in at most two modules (function patterns and format included) decodes as the reference model says",
        move |i| format!("modules {} and {} flipped, level #{}", i % 441, i / 441 % 441, i / pairs),
        {
            let lv = lv.clone();
            move |i| {
                let (p, q, l) = ((i % 441) as usize, (i / 441 % 441) as usize, lv[(i / pairs) as usize]);
                let mut c = Case::new();
                if q > p {
                    c.out("symmetric");
                    return c;
                }
                let s = Symbol::full(1, l, l + 2, 0, 7);
                let mut m = s.modules();
                m.flip(p / 21, p % 21);
                if q != p {
                    m.flip(q / 21, q % 21);
                }
                c.state(hash_bools(l as u64, &m.m));
                c.call();
                let e = ref_decode(&m);
                let (out, r) = dec(&m);
                match judge(&e, &out, &r, Some(&|a: &Meta, b: &[u8]| nearly(&m, a, b))) {
                    Ok(o) => c.out(o),
                    Err(s) => c.fail(s),
                }
                c
            }
        },
    ));
    // unstructured squares with valid format
    let (nv, np) = if thorough { (40, 64) } else { (40, 6) };
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (x.take(32), x.take(np), 40 - x.take(nv))
    };
    f.push(Family::new(
        "arbitrary data",
        32 * np as u64 * nv as u64,
        format!("all 40 versions x 32 formats x {np} unstructured fills"),
        move |i| {
            let (d, p, v) = dc(i);
            format!("version {v} format {d:05b} fill {p}")
        },
        move |i| {
            let (d, p, v) = dc(i);
            let n = size(v);
            let mut m = Modules::new(n);
            for y in 0..n {
                for x in 0..n {
                    m.set(y, x, if p < 8 { pattern(p, n, y, x) } else { mix2(p as u64, (y * n + x) as u64) & 1 == 1 });
                }
            }
            let w = format_codeword(d as u16) ^ 0x5412;
            put_format(&mut m, 0, w);
            put_format(&mut m, 1, w);
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            c.call();
            let e = ref_decode(&m);
            let (out, r) = dec(&m);
            match judge(&e, &out, &r, None) {
                Ok(o) => c.out(o),
                Err(s) => c.fail(s),
            }
            c
        },
    ));
    // all-zero and all-one streams are codewords: payload parsing at every size
    f.push(Family::new(
        "constant streams",
        1280 * 4,
        "all 1280 configurations x constant data codewords 0x00, 0xff, 0x11, 0x77 with valid parity",
        |i| format!("configuration {} constant {}", i / 4, i % 4),
        |i| {
            let mut x = Ix(i / 4);
            let (v, l, mk) = (x.take(40) + 1, x.take(4), x.take(8));
            let data = vec![[0u8, 0xff, 0x11, 0x77][(i % 4) as usize]; blk(v, l).data_total];
            let s = Symbol::from_data(v, l, mk, &data, vec![]);
            let m = s.modules();
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            c.call();
            let p = parse(v, &data);
            let e = Expect { meta: Some(s.meta()), out: p.out, verdict: p.verdict, also: p.also, hard: false };
            let (out, r) = dec(&m);
            match judge(&e, &out, &r, None) {
                Ok(o) => c.out(o),
                Err(s) => c.fail(s),
            }
            c
        },
    ));
    Property {
        id: "C08",
        assumptions: a(&[
            "sides between 21 and 180 that are not 17+4v are only required to return",
            "arithmetic overflow counts as a failure (the harness is built with overflow checks)",
        ]),
        families: f,
    }
}

// ------------------------------------------------------------------ C09

pub fn c09(thorough: bool) -> Property {
    let mut f = Vec::new();
    let nk: u64 = if thorough { 4 } else { 2 };
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (40 - x.take(40), x.take(4), x.take(8), x.take(nk as usize))
    };
    f.push(Family::new(
        "configurations",
        1280 * nk,
        "all 1280 configurations, transposed: same content and metadata as straight",
        move |i| {
            let (v, l, m, k) = dc(i);
            format!("mirrored version {v}-{} mask {m} {}", LVL[l], KINDS[k])
        },
        move |i| {
            let (v, l, m, k) = dc(i);
            let s = Symbol::full(v, l, m, k, i);
            let g = s.modules().transpose();
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &g.m));
            expect_symbol(&mut c, &s, &g);
            c
        },
    ));
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (40 - x.take(40), x.take(4), x.take(3))
    };
    f.push(Family::new(
        "damaged mirrored",
        480,
        "all 160 (version, level) transposed with floor(e/2) wrong codewords in every block at 3 positions and 3 wrong format modules",
        move |i| {
            let (v, l, p) = dc(i);
            format!("mirrored version {v}-{} damage window {p}", LVL[l])
        },
        move |i| {
            let (v, l, p) = dc(i);
            let s = Symbol::full(v, l, (i % 8) as usize, 0, i);
            let mut b = s.blocks.clone();
            for (bi, blk) in b.iter_mut().enumerate() {
                let t = crate::util::blk(v, l).blocks[bi].t();
                let from = (blk.len() - t) * p / 2;
                for q in from..from + t {
                    blk[q] ^= 1 + (mix2(i, (bi * 256 + q) as u64) % 255) as u8;
                }
            }
            let mut g = s.modules_of(&b);
            let w = drawn_word(&g, 0) ^ [0x0007, 0x4020, 0x2801][p];
            put_format(&mut g, 0, w);
            let g = g.transpose();
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &g.m));
            expect_symbol(&mut c, &s, &g);
            c
        },
    ));
    // which reading wins, and which error is reported: all format words
    f.push(Family::new(
        "format words",
        32768 * 4,
        "version 1: all 32768 words in copy 1 of {straight symbol, mirrored symbol, unreadable data, symbol whose copy 2 is lost}: content, or the error of the straight reading",
        |i| format!("word {:015b} background {}", i % 32768, i / 32768),
        |i| {
            let w = (i % 32768) as u16;
            let s = Symbol::full(1, L, 3, 0, 99);
            let mut m = s.modules();
            match i / 32768 {
                0 => put_format(&mut m, 0, w),
                1 => {
                    put_format(&mut m, 0, w);
                    m = m.transpose();
                }
                2 => {
                    for y in 9..21 {
                        for x in 9..21 {
                            if mix((y * 21 + x) as u64) & 1 == 1 {
                                m.flip(y, x);
                            }
                        }
                    }
                    put_format(&mut m, 0, w);
                }
                _ => {
                    put_format(&mut m, 0, w);
                    put_format(&mut m, 1, undecodable()[5]);
                    m = m.transpose();
                }
            }
            let mut c = Case::new();
            c.state(hash_bools(i / 32768, &m.m));
            c.call();
            let e = ref_decode(&m);
            let (out, r) = dec(&m);
            match judge(&e, &out, &r, Some(&|a: &Meta, b: &[u8]| nearly(&m, a, b))) {
                Ok(o) => c.out(o),
                Err(s) => c.fail(s),
            }
            c
        },
    ));
    // errors of both readings, combined
    let pats: usize = 7;
    f.push(Family::new(
        "error of the straight reading",
        (pats * pats * 40) as u64,
        "all 40 versions x 7 states of copy 1 and mirrored copy 1 (x = y symmetric cells excluded) over unreadable data",
        move |i| {
            let mut x = Ix(i);
            format!("version {} states {} {}", x.take(40) + 1, x.take(pats), x.take(pats))
        },
        move |i| {
            let mut x = Ix(i);
            let (v, p, q) = (x.take(40) + 1, x.take(pats), x.take(pats));
            let n = size(v);
            let mut m = Modules::new(n);
            for y in 0..n {
                for x in 0..n {
                    m.set(y, x, mix2(v as u64, (y * n + x) as u64) & 1 == 1);
                }
            }
            let u = undecodable();
            let word = |k: usize, j: u64| match k {
                0 => format_codeword((mix2(i, j) % 32) as u16) ^ 0x5412,
                1 => u[(mix2(i, j) % u.len() as u64) as usize],
                2 => format_codeword((mix2(i, j) % 32) as u16) ^ 0x5412 ^ 0x0111,
                3 => 0,
                4 => 0x7fff,
                _ => (mix2(i, j + k as u64) & 0x7fff) as u16,
            };
            put_format(&mut m, 0, word(p, 1));
            put_format(&mut m, 1, word(q, 2));
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            c.call();
            let e = ref_decode(&m);
            let (out, r) = dec(&m);
            match judge(&e, &out, &r, None) {
                Ok(o) => c.out(o),
                Err(s) => c.fail(s),
            }
            c
        },
    ));
    Property { id: "C09", assumptions: a(&["a mirrored symbol is the transposed module square"]), families: f }
}
