//! C24 one bad symbol among good ones, C25 bad pictures of a symbol are never
//! read as something else.

use super::detect::{finders, mistakable, seen};
use crate::canvas::*;
use crate::engine::*;
use crate::qr::*;
use crate::util::*;

pub const HOW: [&str; 9] = [
    "a finder pattern blank",
    "a finder pattern without stone",
    "solid dark",
    "data modules inverted",
    "data modules all dark",
    "format information blank",
    "timing patterns blank",
    "one half blank",
    "noise for data",
];

pub fn spoil(m: &mut Modules, v: usize, how: usize, salt: u64) {
    let (n, l) = (m.n, lay(v));
    match how {
        0 | 1 => {
            let (oy, ox) = [(0, 0), (0, n - 7), (n - 7, 0)][salt as usize % 3];
            for y in 0..7 {
                for x in 0..7 {
                    m.set(oy + y, ox + x, how == 1 && (y == 0 || x == 0 || y == 6 || x == 6));
                }
            }
        }
        2 => m.m.iter_mut().for_each(|b| *b = true),
        3 | 4 | 8 => {
            for (i, &(y, x)) in l.cells.iter().enumerate() {
                let b = match how {
                    3 => !m.get(y, x),
                    4 => true,
                    _ => mix2(salt, i as u64) & 1 == 1,
                };
                m.set(y, x, b);
            }
        }
        5 => {
            for copy in 0..2 {
                put_format(m, copy, 0);
            }
        }
        6 => {
            for k in 8..n - 8 {
                m.set(6, k, false);
                m.set(k, 6, false);
            }
        }
        _ => {
            for y in 0..n {
                for x in 0..n {
                    if [x >= n / 2, y >= n / 2, x + y >= n][salt as usize % 3] {
                        m.set(y, x, false);
                    }
                }
            }
        }
    }
}

pub fn c24(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v: Vec<(usize, usize, usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 3, 5, 7] {
        for (cols, rows) in [(2usize, 1usize), (1, 2), (2, 2), (3, 1), (3, 3)] {
            for bad in 0..cols * rows {
                for how in 0..HOW.len() {
                    for d in 0..8 {
                        for gap in if thorough { vec![4usize, 5, 9, 13] } else { vec![4] } {
                            if ver > 3 && cols * rows == 9 && !thorough && d % 4 != how % 4 {
                                continue;
                            }
                            v.push((ver, cols, rows, bad, how, d, gap));
                        }
                    }
                }
            }
        }
    }
    f.push(listed(
        "sheets",
        "sheets of 2 to 9 symbols of versions 1, 2, 3, 5, 7 at 2 or 3 pixels per module: each symbol in turn spoilt in 9 ways, 8 orientations",
        v,
        |&(ver, cols, rows, bad, how, d, gap)| {
            let n = size(ver);
            let px = 2 + (bad + how) % 2;
            let mut c = Case::new();
            for salt in 0..60u64 {
                let g = gap * px;
                let step = n * px + g;
                let mut img = Img::new(g + cols * step, g + rows * step);
                let mut want = Vec::new();
                let mut fs = Vec::new();
                let mut real = Vec::new();
                for k in 0..cols * rows {
                    let (s, mut m) = clean(ver, 1, k % 8, 0, salt * 10 + k as u64);
                    let (x, y) = (g + k % cols * step, g + k / cols * step);
                    if k == bad {
                        spoil(&mut m, ver, how, salt);
                    } else {
                        want.push((s, seen(&m, d)));
                    }
                    img.blit(&m.dihedral(d), px, x, y);
                    let p = finders(n, px, x, y, d);
                    // rings that are still there, spoilt or not
                    let mut left = Vec::new();
                    for &(fx, fy) in &p {
                        let at = |i: usize, j: usize| img.get(fx as usize - 3 * px + i * px, fy as usize - 3 * px + j * px);
                        let ok = (0..49).all(|q| {
                            let (i, j) = (q % 7, q / 7);
                            let r = i.min(6 - i).min(j.min(6 - j));
                            at(i, j) == (r != 1)
                        });
                        if ok {
                            left.push((fx, fy));
                            real.push((fx as usize - 3 * px, fy as usize));
                        }
                    }
                    fs.push((n, px, left));
                }
                if mistakable(&fs) {
                    c.out("mistakable");
                    return c;
                }
                if imitations(&img, &real, 0.6) != 0 {
                    continue;
                }
                c.state(img.hash());
                c.call();
                c.out(HOW[how]);
                let mut left: Vec<usize> = (0..want.len()).collect();
                let mut extra = 0;
                for g in find(&img) {
                    c.call();
                    match left.iter().position(|&i| g.res == Ok(want[i].0.meta()) && g.out == want[i].0.out) {
                        Some(k) => {
                            let i = left.remove(k);
                            if g.mods != want[i].1 {
                                c.fail(format!("{}: cells of good symbol {i} differ from the drawing", HOW[how]));
                            }
                        }
                        None if g.res.is_ok() => {
                            c.fail(format!("{}: a grid reads {:?} {}, which is no good symbol", HOW[how], g.res, hex(&g.out)))
                        }
                        None => extra += 1,
                    }
                }
                if !left.is_empty() {
                    c.fail(format!("{}: good symbols {left:?} are missing", HOW[how]));
                }
                if extra > 1 {
                    c.fail(format!("{}: {extra} unreadable grids", HOW[how]));
                }
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    Property { id: "C24", assumptions: vec!["scenes in which finder patterns of different symbols lie like those of one are left out (decided by the model), as are drawings with imitations of a finder pattern".into()], families: f }
}

/// Whatever is found reads as the symbol or is an error.
fn never_else(c: &mut Case, f: &[Found], s: &Symbol) {
    c.call();
    c.out(match f {
        [] => "not found",
        [g] if g.res.is_ok() => "read",
        [_] => "unreadable",
        _ => "several",
    });
    for g in f {
        c.call();
        if g.res.is_ok() && (g.out != s.out || g.res != Ok(s.meta())) {
            c.fail(format!("reads {:?} {}, drawn {:?} {}", g.res, hex(&g.out), s.meta(), hex(&s.out)));
        }
    }
    let good = f.iter().filter(|g| g.res.is_ok()).count();
    if good > 1 {
        c.fail(format!("one symbol is read {good} times"));
    }
}

pub fn c25(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v = Vec::new();
    for ver in [1usize, 2, 4, 7] {
        for px in [2usize, 3, 5] {
            let w = (size(ver) + 8) * px;
            for side in 0..4usize {
                for cut in 0..w {
                    for d in if thorough { 0..8 } else { (cut + side) % 8..(cut + side) % 8 + 1 } {
                        v.push((ver, px, side, cut, d));
                    }
                }
            }
        }
    }
    f.push(listed(
        "cropped",
        "versions 1, 2, 4, 7 at 2, 3, 5 pixels per module: the image cut off at every column from the left and the right and every row from the top and the bottom",
        v,
        |&(ver, px, side, cut, d)| {
            let (s, m) = clean(ver, [1, 0, 3, 2][d % 4], 4, 0, 0);
            let q = 4 * px;
            let img = render(&m.dihedral(d), px, q, q, q, q);
            let (x0, y0, w, h) = match side {
                0 => (cut, 0, img.w - cut, img.h),
                1 => (0, 0, img.w - cut, img.h),
                2 => (0, cut, img.w, img.h - cut),
                _ => (0, 0, img.w, img.h - cut),
            };
            let mut i = Img::new(w, h);
            for y in 0..h {
                for x in 0..w {
                    i.set(x, y, img.get(x0 + x, y0 + y));
                }
            }
            let mut c = Case::new();
            c.state(i.hash());
            never_else(&mut c, &find(&i), &s);
            c
        },
    ));
    let mut v = Vec::new();
    for ver in [1usize, 2, 3, 5, 7, 10] {
        for px in [2usize, 3, 4] {
            for perm in (0..=500u64).step_by(if thorough { 2 } else { 10 }) {
                for d in 0..8 {
                    v.push((ver, px, perm, d, (d + px) % 2 == 1));
                }
            }
        }
    }
    f.push(listed(
        "wrong pixels",
        "versions 1, 2, 3, 5, 7, 10 at 2-4 pixels per module: numbered patterns of 0 to 500 in a thousand pixels inverted",
        v,
        |&(ver, px, perm, d, grey)| {
            let (s, m) = clean(ver, [1, 0, 3, 2][d % 4], 4, 0, 0);
            let q = 4 * px;
            let mut img = render(&m.dihedral(d), px, q, q, q, q);
            for (k, p) in img.px.iter_mut().enumerate() {
                *p ^= mix2(perm * 8 + d as u64, k as u64) % 1000 < perm;
            }
            let mut c = Case::new();
            c.state(img.hash());
            let f = if grey { find_grey(&img, 40, 200) } else { find(&img) };
            never_else(&mut c, &f, &s);
            c
        },
    ));
    let mut v = Vec::new();
    for ver in [1usize, 2, 3, 4, 7] {
        for wrong in (0..=400u64).step_by(if thorough { 1 } else { 5 }) {
            for d in 0..8 {
                v.push((ver, wrong, d));
            }
        }
    }
    f.push(listed(
        "wrong modules",
        "versions 1, 2, 3, 4, 7 at 2 pixels per module: numbered patterns of 0 to 400 in a thousand modules beside finder and timing patterns inverted",
        v,
        |&(ver, wrong, d)| {
            let (s, m) = clean(ver, [1, 0, 3, 2][d % 4], 4, 0, 0);
            let mut dm = m.clone();
            for (k, &(y, x)) in lay(ver).cells.iter().enumerate() {
                if mix2(wrong * 8 + d as u64, k as u64) % 1000 < wrong {
                    dm.set(y, x, !m.get(y, x));
                }
            }
            let img = render(&dm.dihedral(d), 2, 8, 8, 8, 8);
            let mut c = Case::new();
            c.state(img.hash());
            never_else(&mut c, &find(&img), &s);
            c
        },
    ));
    let mut v = Vec::new();
    for ver in 1..=10usize {
        for px in (6..=60usize).step_by(if thorough { 1 } else { 2 }) {
            for deg in (0..360).step_by(if thorough { 7 } else { 21 }) {
                v.push((ver, px, deg, (px + deg) % 2 == 0));
            }
        }
    }
    f.push(listed(
        "too small",
        "versions 1-10 at 0.6 to 6 pixels per module, turned in steps of 21 (7) degrees",
        v,
        |&(ver, px, deg, grey)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let side = m.n as f64 * px as f64 / 10.0;
            let w = (side * 1.6) as usize + 8;
            let img = warp(&m.dihedral(deg % 8), w, w, turned(side, deg as f64, w as f64 / 2.0, w as f64 / 2.0));
            let mut c = Case::new();
            c.state(img.hash());
            let f = if grey { find_grey(&img, 40, 200) } else { find(&img) };
            never_else(&mut c, &f, &s);
            c
        },
    ));
    let mut v: Vec<(usize, usize, [usize; 4])> = Vec::new();
    for ver in [1usize, 2, 4, 7, 10] {
        for px in [3usize, 6] {
            for k in 0..if thorough { 6usize } else { 5 }.pow(4) {
                let mut x = Ix(k as u64);
                v.push((ver, px, [0; 4].map(|_| x.take(if thorough { 6 } else { 5 }))));
            }
        }
    }
    f.push(listed(
        "steep perspective",
        "versions 1, 2, 4, 7, 10 at 3, 6 pixels per module: each corner pulled inwards by 0 to 16 (20) fortieths of the side",
        v,
        |&(ver, px, k)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let side = (m.n * px) as f64;
            let o = 4.0 * px as f64;
            let t = k.map(|k| side * k as f64 / 10.0 * 0.95);
            let q = [
                (o + t[0], o + t[0] * 0.9),
                (o + side - t[1], o + t[1] * 0.8),
                (o + side - t[2] * 0.9, o + side - t[2]),
                (o + t[3] * 0.8, o + side - t[3]),
            ];
            let w = (m.n + 8) * px;
            let img = warp(&m, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            never_else(&mut c, &find(&img), &s);
            c
        },
    ));
    Property { id: "C25", assumptions: vec!["the wrong module and pixel patterns are numbered patterns, not all patterns".into()], families: f }
}
