//! C03 damage within capacity, C04 damage beyond capacity.

use crate::engine::*;
use crate::model::*;
use crate::qr::*;
use crate::util::*;

fn err_val(seed: u64, p: usize) -> u8 {
    1 + (mix2(seed, p as u64) % 255) as u8
}

fn v1_symbol(l: usize) -> &'static Symbol {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Symbol>> = OnceLock::new();
    &C.get_or_init(|| (0..4).map(|l| Symbol::full(1, l, l * 2 + 1, 0, 11 + l as u64)).collect())[l]
}

/// t codewords starting at `from` (cyclic) in every selected block are wrong.
fn burst(s: &Symbol, only: Option<usize>, from: usize, len: impl Fn(&Block) -> usize, seed: u64) -> Vec<Vec<u8>> {
    let b = blk(s.v, s.lvl);
    let mut out = s.blocks.clone();
    for (bi, blk) in out.iter_mut().enumerate() {
        if only.is_some_and(|o| o != bi) {
            continue;
        }
        let n = blk.len();
        for k in 0..len(&b.blocks[bi]).min(n) {
            let p = (from + k) % n;
            blk[p] ^= err_val(seed, bi * 300 + p);
        }
    }
    out
}

pub fn c03(thorough: bool) -> Property {
    let mut f = Vec::new();
    f.push(Family::new(
        "one wrong codeword",
        4 * 26 * 255,
        "version 1, all levels: every codeword replaced by every other value",
        |i| {
            let mut x = Ix(i);
            format!("level {}: codeword {} xor {}", LVL[x.take(4)], x.take(26), x.take(255) + 1)
        },
        |i| {
            let mut x = Ix(i);
            let (l, p, e) = (x.take(4), x.take(26), x.take(255) + 1);
            let s = v1_symbol(l);
            let mut b = s.blocks.clone();
            b[0][p] ^= e as u8;
            let m = s.modules_of(&b);
            let mut c = Case::new();
            c.state(hash_bools(l as u64, &m.m));
            expect_symbol(&mut c, s, &m);
            c
        },
    ));
    // all position sets of maximal size
    for (name, l) in [("sets 1-L", L), ("sets 1-M", M), ("sets 1-Q", Q), ("sets 1-H", H)] {
        let t = blk(1, l).blocks[0].t();
        let n = binom(26, t);
        let reps: u64 = if thorough { 4 } else { 1 };
        f.push(Family::new(
            name,
            n * reps,
            format!("version 1-{}: all {n} sets of exactly {t} wrong codewords out of 26", LVL[l]),
            move |i| format!("wrong codewords {:?}", subset(i % n, 26, t)),
            move |i| {
                let s = v1_symbol(l);
                let mut b = s.blocks.clone();
                for p in subset(i % n, 26, t) {
                    b[0][p] ^= err_val(i, p);
                }
                let m = s.modules_of(&b);
                let mut c = Case::new();
                c.state(hash_bools(l as u64, &m.m));
                expect_symbol(&mut c, s, &m);
                c
            },
        ));
    }
    if thorough {
        let np = binom(26, 2);
        f.push(Family::new(
            "all double errors 1-L",
            np * 255 * 255,
            "version 1-L: every pair of codewords with every pair of error values",
            move |i| format!("codewords {:?} values {} {}", subset(i % np, 26, 2), i / np % 255 + 1, i / np / 255 + 1),
            move |i| {
                let s = v1_symbol(L);
                let q = subset(i % np, 26, 2);
                let mut b = s.blocks.clone();
                b[0][q[0]] ^= (i / np % 255 + 1) as u8;
                b[0][q[1]] ^= (i / np / 255 + 1) as u8;
                let m = s.modules_of(&b);
                let mut c = Case::new();
                expect_symbol(&mut c, s, &m);
                c
            },
        ));
        let mut single = Vec::new();
        for v in (2..=40).rev() {
            for l in 0..4 {
                let longest = blk(v, l).blocks.iter().map(|b| b.len()).max().unwrap();
                for p in 0..longest {
                    single.push((v, l, p));
                }
            }
        }
        let s2 = single.clone();
        f.push(Family::new(
            "every position",
            single.len() as u64,
            "versions 2-40, all levels: the codeword at each position wrong in every block at once",
            move |i| format!("{:?}", s2[i as usize]),
            move |i| {
                let (v, l, p) = single[i as usize];
                let s = Symbol::full(v, l, p % 8, 0, i);
                let mut b = s.blocks.clone();
                for (bi, blk) in b.iter_mut().enumerate() {
                    if p < blk.len() {
                        blk[p] ^= err_val(i, bi);
                    }
                }
                let m = s.modules_of(&b);
                let mut c = Case::new();
                c.state(hash_bools(l as u64, &m.m));
                expect_symbol(&mut c, &s, &m);
                c
            },
        ));
    }
    // windows at capacity tiling every block of every configuration
    let mut win = Vec::new();
    for v in (1..=40).rev() {
        for l in 0..4 {
            let b = blk(v, l);
            let t = b.blocks[0].t();
            let n = b.blocks.last().unwrap().len();
            let step = if thorough { (t / 4).max(1) } else { t };
            let mut p = 0;
            while p < n {
                win.push((v, l, p));
                p += step;
            }
        }
    }
    let w2 = win.clone();
    f.push(Family::new(
        "bursts at capacity",
        win.len() as u64,
        "all 160 (version, level): bursts of exactly floor(e/2) wrong codewords in every block at once, the windows covering every codeword position",
        move |i| {
            let (v, l, p) = w2[i as usize];
            format!("version {v}-{}: burst from codeword {p} in every block", LVL[l])
        },
        move |i| {
            let (v, l, p) = win[i as usize];
            let s = Symbol::full(v, l, (mix(i) % 8) as usize, 0, i);
            let m = s.modules_of(&burst(&s, None, p, |b| b.t(), i));
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    // scattered errors: every stride
    let nst: usize = if thorough { 12 } else { 2 };
    let dc = move |i: u64| {
        let mut x = Ix(i);
        (40 - x.take(40), x.take(4), x.take(8), x.take(nst))
    };
    f.push(Family::new(
        "all configurations scattered",
        (1280 * nst) as u64,
        format!("all 1280 configurations x {nst} strides: floor(e/2) scattered wrong codewords in every block"),
        move |i| {
            let (v, l, m, st) = dc(i);
            format!("version {v}-{} mask {m} stride {}", LVL[l], st * 2 + 3)
        },
        move |i| {
            let (v, l, mk, st) = dc(i);
            let s = Symbol::full(v, l, mk, 0, i);
            let mut b = s.blocks.clone();
            for (bi, blk) in b.iter_mut().enumerate() {
                let t = crate::util::blk(v, l).blocks[bi].t();
                let n = blk.len();
                let mut hit = vec![false; n];
                let mut p = (bi + st * 5) % n;
                for _ in 0..t {
                    while hit[p] {
                        p = (p + 1) % n;
                    }
                    hit[p] = true;
                    blk[p] ^= err_val(i, bi * 300 + p);
                    p = (p + st * 2 + 3) % n;
                }
            }
            let m = s.modules_of(&b);
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    // a single block damaged, each in turn, and every error count
    let mut one = Vec::new();
    for v in (1..=40).rev() {
        for l in 0..4 {
            for bi in 0..blk(v, l).blocks.len() {
                one.push((v, l, bi));
            }
        }
    }
    let o2 = one.clone();
    f.push(Family::new(
        "single block",
        one.len() as u64,
        "all 160 (version, level): each block in turn carries floor(e/2) wrong codewords, the others none",
        move |i| {
            let (v, l, b) = o2[i as usize];
            format!("version {v}-{}: block {b} damaged", LVL[l])
        },
        move |i| {
            let (v, l, bi) = one[i as usize];
            let s = Symbol::full(v, l, bi % 8, 0, i);
            let n = s.blocks[bi].len();
            let m = s.modules_of(&burst(&s, Some(bi), (mix(i) % n as u64) as usize, |b| b.t(), i));
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    let mut cnt = Vec::new();
    for v in 1..=40 {
        for l in 0..4 {
            for e in 0..=blk(v, l).blocks[0].t() {
                cnt.push((v, l, e));
            }
        }
    }
    cnt.sort_by_key(|c| std::cmp::Reverse(c.0));
    let c2 = cnt.clone();
    f.push(Family::new(
        "every error count",
        cnt.len() as u64,
        "all 160 (version, level): e wrong codewords in every block for each e from 0 to floor(ecc/2), with 3 wrong modules in the first format copy",
        move |i| {
            let (v, l, e) = c2[i as usize];
            format!("version {v}-{}: {e} wrong codewords per block", LVL[l])
        },
        move |i| {
            let (v, l, e) = cnt[i as usize];
            let s = Symbol::full(v, l, (i % 8) as usize, 0, i);
            let n = s.blocks[0].len();
            let mut m = s.modules_of(&burst(&s, None, (mix(i) % n as u64) as usize, |_| e, i));
            let w = drawn_word(&m, 0) ^ 0x1042;
            put_format(&mut m, 0, w);
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    Property {
        id: "C03",
        assumptions: vec![
            "capacity of a block with e error correction codewords is floor(e/2) wrong codewords".into(),
            "error positions are exhaustive for version 1; for larger versions every position occurs in a window at capacity, not every set of positions".into(),
        ],
        families: f,
    }
}

fn over(c: &mut Case, _s: &Symbol, m: &Modules) {
    c.call();
    let e = ref_decode(m);
    let (out, r) = dec(m);
    match judge(&e, &out, &r, Some(&|a: &Meta, b: &[u8]| nearly(m, a, b))) {
        Ok(o) => c.out(o),
        Err(s) => c.fail(s),
    }
}

pub fn c04(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut lv = vec![("sets 1-L", L, 1), ("sets 1-M", M, 1), ("sets 1-Q", Q, 1), ("sets+2 1-L", L, 2), ("sets+3 1-L", L, 3)];
    if thorough {
        lv.push(("sets 1-H", H, 1));
        lv.push(("sets+2 1-M", M, 2));
    }
    for (name, l, extra) in lv {
        let t = blk(1, l).blocks[0].t() + extra;
        let n = binom(26, t);
        f.push(Family::new(
            name,
            n,
            format!("version 1-{}: all {n} sets of {t} wrong codewords ({extra} more than can be corrected)", LVL[l]),
            move |i| format!("wrong codewords {:?}", subset(i, 26, t)),
            move |i| {
                let s = v1_symbol(l);
                let mut b = s.blocks.clone();
                for p in subset(i, 26, t) {
                    b[0][p] ^= err_val(i + 77, p);
                }
                let m = s.modules_of(&b);
                let mut c = Case::new();
                c.state(hash_bools(l as u64, &m.m));
                over(&mut c, s, &m);
                c
            },
        ));
    }
    // mixtures of two codewords
    let nm: u64 = if thorough { 4096 } else { 512 };
    f.push(Family::new(
        "between two symbols",
        4 * 27 * nm,
        "version 1, all levels: k codewords of one valid symbol and 26-k of another, every k, over many pairs and orders; the answer is the nearer one within capacity or an error",
        move |i| {
            let mut x = Ix(i);
            format!("level {}, {} codewords replaced, pair {}", LVL[x.take(4)], x.take(27), x.take(nm as usize))
        },
        move |i| {
            let mut x = Ix(i);
            let (l, k, p) = (x.take(4), x.take(27), x.take(nm as usize) as u64);
            let s = v1_symbol(l);
            // change one character so that the codewords are as close as they get
            let mut d = s.out.clone();
            let j = (mix(p) % d.len() as u64) as usize;
            d[j] ^= 1 + (mix2(p, 3) % 31) as u8;
            let o = Symbol::from_segs(1, l, s.mask, &[Seg::Byte(d)]);
            let mut order: Vec<usize> = (0..26).collect();
            for q in (1..26).rev() {
                order.swap(q, (mix2(p, 100 + q as u64) % (q as u64 + 1)) as usize);
            }
            order.sort_by_key(|&q| s.blocks[0][q] == o.blocks[0][q]);
            let mut b = s.blocks.clone();
            for &q in &order[..k] {
                b[0][q] = o.blocks[0][q];
            }
            let m = s.modules_of(&b);
            let mut c = Case::new();
            c.state(hash_bools(l as u64, &m.m));
            over(&mut c, s, &m);
            c
        },
    ));
    // one block beyond capacity in every configuration
    let mut one = Vec::new();
    for v in (1..=40).rev() {
        for l in 0..4 {
            for bi in 0..blk(v, l).blocks.len() {
                if thorough || v <= 20 || bi == 0 || bi + 1 == blk(v, l).blocks.len() || bi % 5 == v % 5 {
                    for extra in [1usize, 2, 5] {
                        one.push((v, l, bi, extra));
                    }
                }
            }
        }
    }
    let o2 = one.clone();
    f.push(Family::new(
        "single block",
        one.len() as u64,
        if thorough {
            "all 160 (version, level): each block in turn carries floor(e/2)+{1,2,5} wrong codewords, the others none"
        } else {
            "all 160 (version, level): each block in turn (versions above 20: first, last and every fifth) carries floor(e/2)+{1,2,5} wrong codewords, the others none"
        },
        move |i| {
            let (v, l, b, x) = o2[i as usize];
            format!("version {v}-{}: block {b} damaged {x} beyond capacity", LVL[l])
        },
        move |i| {
            let (v, l, bi, x) = one[i as usize];
            let s = Symbol::full(v, l, bi % 8, 0, i);
            let n = s.blocks[bi].len();
            let m = s.modules_of(&burst(&s, Some(bi), (mix(i) % n as u64) as usize, |b| b.t() + x, i));
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            over(&mut c, &s, &m);
            c
        },
    ));
    // every burst in version 1
    let nseed: u64 = if thorough { 64 } else { 16 };
    f.push(Family::new(
        "every burst",
        4 * 26 * 26 * nseed,
        "version 1, all levels: bursts of every length 1..=26 at every start, several error values",
        |i| {
            let mut x = Ix(i);
            format!("level {} start {} length {} values #{}", LVL[x.take(4)], x.take(26), x.take(26) + 1, x.0)
        },
        |i| {
            let mut x = Ix(i);
            let (l, p, n) = (x.take(4), x.take(26), x.take(26) + 1);
            let s = v1_symbol(l);
            let m = s.modules_of(&burst(s, None, p, |_| n, i));
            let mut c = Case::new();
            c.state(hash_bools(l as u64, &m.m));
            over(&mut c, s, &m);
            c
        },
    ));
    // all single-codeword changes of the zero codeword neighbourhood on small multi-block symbols
    f.push(Family::new(
        "wiped regions",
        40 * 4 * 16,
        "all 160 (version, level): rows or columns of the symbol wiped to one colour, 16 widths",
        |i| {
            let mut x = Ix(i);
            format!("version {} level {} {} rows/columns wiped", 40 - x.take(40), LVL[x.take(4)], x.take(16) + 1)
        },
        |i| {
            let mut x = Ix(i);
            let (v, l, w) = (40 - x.take(40), x.take(4), x.take(16) + 1);
            let s = Symbol::full(v, l, (i % 8) as usize, 0, i);
            let mut m = s.modules();
            let n = m.n;
            let w = w * n / 48 + 1;
            let from = 9 + (mix(i) % (n - 9 - w.min(n - 10)) as u64) as usize;
            for a in from..(from + w).min(n) {
                for b in 9..n {
                    if w % 2 == 0 {
                        m.set(a, b, i % 3 == 0)
                    } else {
                        m.set(b, a, i % 3 == 0)
                    }
                }
            }
            let mut c = Case::new();
            c.state(hash_bools(v as u64, &m.m));
            over(&mut c, &s, &m);
            c
        },
    ));
    Property {
        id: "C04",
        assumptions: vec![
            "damage that brings a block within floor(e/2) codewords of a different valid block cannot be told from that block; the reference decoder (Peterson-Gorenstein-Zierler) decides which case applies".into(),
        ],
        families: f,
    }
}
