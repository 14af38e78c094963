//! C22 stains and wrong pixels on a symbol in an image, C23 symbols drawn at
//! fractional sizes, stretched, sheared, smoothed.

use super::detect::{expect_one, seen};
use crate::canvas::*;
use crate::engine::*;
use crate::model::ref_read_format;
use crate::qr::*;
use crate::util::*;

/// Is every block of the damaged symbol still within its capacity?
fn correctable(s: &Symbol, m: &Modules, d: &Modules) -> bool {
    let (l, b) = (lay(s.v), blk(s.v, s.lvl));
    let mut wrong = vec![false; b.total];
    for (i, &(y, x)) in l.cells.iter().enumerate() {
        if i / 8 < b.total && m.get(y, x) != d.get(y, x) {
            wrong[i / 8] = true;
        }
    }
    let mut per = vec![0; b.blocks.len()];
    for (k, &(bi, _)) in b.order.iter().enumerate() {
        per[bi] += wrong[k] as usize;
    }
    per.iter().zip(&b.blocks).all(|(&n, b)| n <= b.t())
}

/// The three finder rings of a symbol in orientation `d`, a pixel of each.
fn rings(n: usize, px: usize, ox: usize, oy: usize, d: usize) -> Vec<(usize, usize)> {
    let mut mark = Modules::new(n);
    for (y, x) in [(0, 0), (0, n - 1), (n - 1, 0)] {
        mark.set(y, x, true);
    }
    let mark = mark.dihedral(d);
    let mut r = Vec::new();
    for y in [0, n - 1] {
        for x in [0, n - 1] {
            if mark.get(y, x) {
                r.push((ox + x * px + px / 2, oy + y * px + px / 2));
            }
        }
    }
    r
}

/// Does the pixel lie beside a finder pattern or in a timing pattern of the
/// symbol in orientation `d`, drawn with a quiet zone of four modules?
fn critical(n: usize, px: usize, x: usize, y: usize, d: usize) -> bool {
    let mut mark = Modules::new(n + 8);
    for b in 0..9 {
        for a in 0..9 {
            for (oy, ox) in [(3, 3), (3, n - 4), (n - 4, 3)] {
                mark.set(oy + b, ox + a, true);
            }
        }
    }
    for k in 4..n + 4 {
        mark.set(10, k, true);
        mark.set(k, 10, true);
    }
    mark.dihedral(d).get(y / px, x / px)
}

pub fn c22(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v: Vec<(usize, usize, usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 3, 5, 7, 10, 14] {
        let n = size(ver);
        for lvl in [0usize, 1, 2, 3] {
            for s in if thorough { 1..=12usize } else { 2..=if ver <= 5 { 10 } else { 5 } } {
                for y in 0..=n - s {
                    for x in 0..=n - s {
                        let l = lay(ver);
                        if (0..s * s).any(|k| l.func[(y + k / s) * n + x + k % s]) {
                            continue;
                        }
                        if !thorough && (n > 40 && (x + y + s) % 4 != 0 || s > 5 && (x + 2 * y) % 5 != 0) {
                            continue;
                        }
                        let kind = if thorough { 0..3 } else { (x + y + lvl) % 3..(x + y + lvl) % 3 + 1 };
                        for k in kind {
                            v.push((ver, lvl, s, y, x, k, (x + y) % 8));
                        }
                    }
                }
            }
        }
    }
    f.push(listed(
        "stains",
        "versions 1, 2, 3, 5, 7, 10, 14 x 4 levels: a square stain of 2-5 (2-10 up to version 5; thorough: 1-12) modules (dark, light, inverted) at every place beside the function patterns (quick: every fourth for versions 7 and above, every fifth of the large ones, one kind per place) that leaves every block correctable",
        v,
        |&(ver, lvl, s, y, x, kind, d)| {
            let (sym, m) = clean(ver, lvl, 3, 0, 0);
            let mut dm = m.clone();
            for k in 0..s * s {
                let (yy, xx) = (y + k / s, x + k % s);
                dm.set(yy, xx, [true, false, !m.get(yy, xx)][kind]);
            }
            let mut c = Case::new();
            if !correctable(&sym, &m, &dm) {
                c.out("beyond capacity");
                return c;
            }
            let px = 2 + (x + s) % 2;
            let img = render(&dm.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
            if imitations(&img, &rings(m.n, px, 4 * px, 4 * px, d), 0.6) != 0 {
                c.out("imitates a finder pattern");
                return c;
            }
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &sym, Some(&seen(&dm, d)));
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize, usize, usize, bool)> = Vec::new();
    for (ver, px) in [(1usize, 3usize), (1, 4), (2, 3), (2, 5), (7, 3), (7, 4)] {
        if ver == 7 && !thorough && px == 4 {
            continue;
        }
        let w = (size(ver) + 8) * px;
        for y in 0..w {
            for x in 0..w {
                let d = (x + y) % 8;
                if ver == 7 && !thorough && (x + y) % 4 != 0 || critical(size(ver), px, x, y, d) {
                    continue;
                }
                v.push((ver, px, x, y, d, (x / 8 + y) % 2 == 1));
            }
        }
    }
    f.push(listed(
        "one wrong pixel",
        "versions 1, 2, 7 at 3-5 pixels per module: every single pixel of the symbol and its quiet zone that is more than a module away from the finder patterns and not in the timing patterns inverted (quick: every fourth for version 7)",
        v,
        |&(ver, px, x, y, d, grey)| {
            let (s, m) = clean(ver, 1, 3, 0, 0);
            let mut img = render(&m.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
            let v = img.get(x, y);
            img.set(x, y, !v);
            let mut c = Case::new();
            if imitations(&img, &rings(m.n, px, 4 * px, 4 * px, d), 0.6) != 0 {
                c.out("imitates a finder pattern");
                return c;
            }
            c.state(img.hash());
            let f = if grey { find_grey(&img, 20, 230) } else { find(&img) };
            expect_one(&mut c, &f, &s, None);
            c
        },
    ));
    // one of the two timing patterns
    let mut v: Vec<(usize, usize, bool, u64, usize)> = Vec::new();
    for ver in 1..=if thorough { 40usize } else { 14 } {
        let k = size(ver) - 16;
        let all = 1u64 << k.min(20);
        // all of them, else: all or nothing, every run of equal modules, numbered patterns
        let mut pats: Vec<u64> = if k <= if thorough { 13 } else { 9 } { (0..all).collect() } else { (0..200).map(|i| mix2(ver as u64, i)).collect() };
        if k > 9 {
            pats.extend([0, u64::MAX]);
        }
        for (i, p) in pats.into_iter().enumerate() {
            for side in [false, true] {
                for d in if ver <= 2 || thorough { 0..8 } else { i % 8..i % 8 + 1 } {
                    v.push((ver, 2 + i % 2, side, p, d));
                }
            }
        }
    }
    f.push(listed(
        "one timing pattern",
        "versions 1-14 (40): the modules of one of the two timing patterns replaced by every pattern (versions 1, 2; thorough: 3), all light, all dark and 200 numbered ones (larger)",
        v,
        |&(ver, px, side, pat, d)| {
            let (s, m) = clean(ver, 1, 3, 0, 0);
            let mut dm = m.clone();
            for k in 8..m.n - 8 {
                let b = pat >> ((k - 8) % 64) & 1 == 1;
                let (y, x) = if side { (6, k) } else { (k, 6) };
                dm.set(y, x, b);
            }
            let img = render(&dm.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
            let mut c = Case::new();
            if imitations(&img, &rings(m.n, px, 4 * px, 4 * px, d), 0.6) != 0 {
                c.out("imitates a finder pattern");
                return c;
            }
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&dm, d)));
            c
        },
    ));
    // stains that hit function patterns the reader can do without
    let mut v: Vec<(usize, usize, usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 5, 7, 9, 14] {
        let n = size(ver);
        for lvl in 0..4usize {
            for s in 1..=if thorough { 6usize } else { 4 } {
                for y in 0..=n - s {
                    for x in 0..=n - s {
                        let hit = |a0: usize, b0: usize, a1: usize, b1: usize| y < a1 && y + s > a0 && x < b1 && x + s > b0;
                        let needed = hit(0, 0, 9, 9) && !(hit(8, 0, 9, 6) && y >= 8 && x + s <= 6 || hit(0, 8, 6, 9) && x >= 8 && y + s <= 6)
                            || hit(0, n - 8, 8, n)
                            || hit(n - 8, 0, n, 8)
                            || ver > 1 && hit(n - 10, n - 10, n - 3, n - 3)
                            || hit(6, 0, 7, n) && hit(0, 6, n, 7);
                        let func = (0..s * s).any(|k| lay(ver).func[(y + k / s) * n + x + k % s]);
                        if needed || !func || !thorough && (x + 3 * y + lvl) % 3 != 0 {
                            continue;
                        }
                        for k in if thorough { 0..3 } else { (x + y + lvl) % 3..(x + y + lvl) % 3 + 1 } {
                            v.push((ver, lvl, s, y, x, k, (x + 2 * y) % 8));
                        }
                    }
                }
            }
        }
    }
    f.push(listed(
        "stained function patterns",
        "versions 1, 2, 5, 7, 9, 14 x 4 levels: a square stain of 1-4 (6) modules (dark, light, inverted) at every place (quick: every third) where it hits one timing pattern, one copy of the format, version information or an alignment pattern other than the last, and leaves the format and every block correctable",
        v,
        |&(ver, lvl, s, y, x, kind, d)| {
            let (sym, m) = clean(ver, lvl, 3, 0, 0);
            let mut dm = m.clone();
            for k in 0..s * s {
                let (yy, xx) = (y + k / s, x + k % s);
                dm.set(yy, xx, [true, false, !m.get(yy, xx)][kind]);
            }
            let mut c = Case::new();
            if !correctable(&sym, &m, &dm) || ref_read_format(&dm) != ref_read_format(&m) {
                c.out("beyond capacity");
                return c;
            }
            let px = 2 + (x + s) % 2;
            let img = render(&dm.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
            if imitations(&img, &rings(m.n, px, 4 * px, 4 * px, d), 0.6) != 0 {
                c.out("imitates a finder pattern");
                return c;
            }
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &sym, Some(&seen(&dm, d)));
            c
        },
    ));
    Property { id: "C22", assumptions: vec!["images in which the stain completes an imitation of a finder pattern, and stains beyond the correction capacity, are counted but not judged".into()], families: f }
}

/// Coverage of pixel (x, y) by dark modules, 0 to 64, when the symbol has its
/// corner at (ox, oy) and modules of sx by sy pixels (all times `1/den`).
fn cover(m: &Modules, x: usize, y: usize, ox: f64, oy: f64, sx: f64, sy: f64) -> usize {
    let mut k = 0;
    for j in 0..8 {
        for i in 0..8 {
            let u = (x as f64 + (i as f64 + 0.5) / 8.0 - ox) / sx;
            let v = (y as f64 + (j as f64 + 0.5) / 8.0 - oy) / sy;
            if u >= 0.0 && v >= 0.0 && (u as usize) < m.n && (v as usize) < m.n && m.get(v as usize, u as usize) {
                k += 1;
            }
        }
    }
    k
}

/// Nearest neighbour: is the middle of the pixel dark?
fn point(m: &Modules, x: usize, y: usize, ox: f64, oy: f64, sx: f64, sy: f64, shear: f64) -> bool {
    let yy = y as f64 + 0.5 - oy;
    let u = (x as f64 + 0.5 - ox - shear * yy) / sx;
    let v = yy / sy;
    u >= 0.0 && v >= 0.0 && (u as usize) < m.n && (v as usize) < m.n && m.get(v as usize, u as usize)
}

pub fn c23(thorough: bool) -> Property {
    let mut f = Vec::new();
    // sx, sy in tenths of a pixel
    let mut v: Vec<(usize, usize, usize, usize)> = Vec::new();
    for ver in 1..=14 {
        for s in 40..=if thorough { 250 } else { 120 } {
            for ph in 0..4 {
                v.push((ver, s, s, ph));
            }
        }
    }
    f.push(listed(
        "fractional",
        "versions 1-14 at 4.0 to 12.0 (25.0) pixels per module in steps of a tenth (not smoothed), 4 fractional positions",
        v,
        nearest,
    ));
    let mut v: Vec<(usize, usize, usize, usize)> = Vec::new();
    let step = if thorough { 1 } else { 3 };
    for ver in 1..=if thorough { 14 } else { 8 } {
        for sx in (40..=100).step_by(step) {
            for sy in (40..=100).step_by(step) {
                if sx != sy {
                    v.push((ver, sx, sy, (sx + sy) % 4));
                }
            }
        }
    }
    f.push(listed("stretched", "versions 1-8 (14), 4.0 to 10.0 pixels per module, different in width and height, in steps of 0.3 (0.1)", v, nearest));
    let mut v: Vec<(usize, usize, usize, i32)> = Vec::new();
    for ver in 2..=7 {
        for px in 8usize..=14 {
            for sh in (-50i32..=50).step_by(if thorough { 1 } else { 5 }) {
                for t in 0..2 {
                    v.push((ver, px, t, sh));
                }
            }
        }
    }
    f.push(listed("sheared", "versions 2-7 at 8 to 14 pixels per module, sheared along rows or columns by up to half a pixel per pixel", v, |&(ver, px, t, sh)| {
        let n = size(ver);
        let shear = sh as f64 / 100.0;
        let extra = (n as f64 * px as f64 * shear.abs()) as usize;
        let (w, h) = ((n + 8) * px + extra, (n + 8) * px);
        let ox = (4 * px + if sh < 0 { extra } else { 0 }) as f64;
        let d = (ver + px + (sh + 50) as usize / 5) % 8;
        let mut c = Case::new();
        for salt in 0..50 {
            let (s, m) = clean(ver, if ver == 1 { 2 } else { 1 }, 3, 0, salt);
            let md = m.dihedral(d);
            let mut img = Img::new(w, h);
            let mut mark = Modules::new(n);
            for (y, x) in [(0, 0), (0, n - 1), (n - 1, 0)] {
                mark.set(y, x, true);
            }
            let mark = mark.dihedral(d);
            let mut real = Vec::new();
            for y in 0..h {
                for x in 0..w {
                    img.set(x, y, point(&md, x, y, ox, 4.0 * px as f64, px as f64, px as f64, shear));
                    if point(&mark, x, y, ox, 4.0 * px as f64, px as f64, px as f64, shear) {
                        real.push((x, y));
                    }
                }
            }
            let (img, real) = if t == 1 { (img.transpose(), real.iter().map(|&(x, y)| (y, x)).collect()) } else { (img, real) };
            if imitations(&img, &real, 1.1) != 0 {
                continue;
            }
            c.state(img.hash());
            let want = if t == 1 { seen(&m, d).transpose() } else { seen(&m, d) };
            expect_one(&mut c, &find(&img), &s, Some(&want).filter(|_| ver > 1));
            return c;
        }
        c.out("no unambiguous drawing");
        c
    }));
    let mut v: Vec<(usize, usize, usize, usize)> = Vec::new();
    for ver in 2..=7 {
        for s in (60..=if thorough { 200 } else { 120 }).step_by(if thorough { 1 } else { 3 }) {
            for ph in 0..4 {
                v.push((ver, s, s, ph));
            }
        }
    }
    f.push(listed("smoothed", "greyscale, every pixel as dark as it is covered: versions 2-7 at 6.0 to 12.0 (20.0) pixels per module in steps of 0.3 (0.1), 4 fractional positions", v, |&(ver, sx, sy, ph)| {
        let (sx, sy) = (sx as f64 / 10.0, sy as f64 / 10.0);
        let d = (ver + ph * 3 + sx as usize) % 8;
        let (s, m) = clean(ver, if ver == 1 { 2 } else { 1 }, 3, 0, 0);
        let md = m.dihedral(d);
        let n = m.n as f64;
        let (ox, oy) = (4.0 * sx + ph as f64 * 0.25, 4.0 * sy + ph as f64 * 0.5);
        let (w, h) = (((n + 8.0) * sx) as usize + 2, ((n + 8.0) * sy) as usize + 2);
        let mut c = Case::new();
        c.state(hash_u64s(&[ver as u64, (sx * 10.0) as u64, (sy * 10.0) as u64, ph as u64]));
        let f = find_grey_fn(w, h, |x, y| (255 - cover(&md, x, y, ox, oy, sx, sy) * 3) as u8);
        expect_one(&mut c, &f, &s, None);
        c
    }));
    Property { id: "C23", assumptions: vec!["from version 2 on the grid is compared module by module where the drawing is not smoothed; version 1 has no alignment pattern and only has to be read".into()], families: f }
}

fn nearest(&(ver, sx, sy, ph): &(usize, usize, usize, usize)) -> Case {
    let (sx, sy) = (sx as f64 / 10.0, sy as f64 / 10.0);
    let d = (ver + ph * 3 + (sx + sy) as usize) % 8;
    let (ox, oy) = (4.0 * sx + ph as f64 * 0.25, 4.0 * sy + ph as f64 * 0.5);
    let mut c = Case::new();
    for salt in 0..50 {
        let (s, m) = clean(ver, 1, 3, 0, salt);
        let md = m.dihedral(d);
        let n = m.n as f64;
        let mut img = Img::new(((n + 8.0) * sx) as usize + 2, ((n + 8.0) * sy) as usize + 2);
        let mut mark = Modules::new(m.n);
        for (y, x) in [(0, 0), (0, m.n - 1), (m.n - 1, 0)] {
            mark.set(y, x, true);
        }
        let mark = mark.dihedral(d);
        let mut real = Vec::new();
        for y in 0..img.h {
            for x in 0..img.w {
                img.set(x, y, point(&md, x, y, ox, oy, sx, sy, 0.0));
                if point(&mark, x, y, ox, oy, sx, sy, 0.0) {
                    real.push((x, y));
                }
            }
        }
        if imitations(&img, &real, 1.1) != 0 {
            continue;
        }
        c.state(img.hash());
        expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)).filter(|_| ver > 1));
        return c;
    }
    c.out("no unambiguous drawing");
    c
}
