//! C11 one symbol is found and read, C12 several symbols, C15 clutter,
//! C16 bounds, C19 shades, C20 nothing is invented.

use crate::canvas::*;
use crate::engine::*;
use crate::qr::*;
use crate::util::*;

/// Exactly one grid, and it reads as the symbol.  With `exact`, every module
/// of the grid is the drawn one (either way round when mirrored).
pub fn expect_one(c: &mut Case, f: &[Found], s: &Symbol, exact: Option<&Modules>) {
    c.call();
    if f.len() != 1 {
        c.fail(format!("{} grids found, the image shows one symbol", f.len()));
        return;
    }
    expect_reads(c, &f[0], s, exact);
}

fn expect_reads(c: &mut Case, f: &Found, s: &Symbol, exact: Option<&Modules>) {
    c.call();
    match &f.res {
        Ok(m) if *m == s.meta() && f.out == s.out => {}
        Ok(m) => c.fail(format!("read {m:?} {}, drawn {:?} {}", hex(&f.out), s.meta(), hex(&s.out))),
        Err(e) => c.fail(format!("grid of {} cells found, reading it fails with {e:?}", f.mods.n)),
    }
    if let Some(m) = exact {
        if f.mods.n != m.n {
            c.fail(format!("grid of {} cells, drawn {}", f.mods.n, m.n));
        } else if f.mods != *m {
            let k = f.mods.m.iter().zip(&m.m).filter(|(a, b)| a != b).count();
            c.fail(format!("{k} cells of the grid differ from the drawing"));
        }
    }
}

/// The grid a reader should see for a symbol drawn in orientation `d`.
pub fn seen(m: &Modules, d: usize) -> Modules {
    if d < 4 {
        m.clone()
    } else {
        m.transpose()
    }
}

type Up = (usize, usize, usize, usize, usize, usize, bool);

fn upright(&(v, lvl, mask, px, q, d, grey): &Up) -> Case {
    let (s, m) = clean(v, lvl, mask, 0, 0);
    let img = render(&m.dihedral(d), px, q * px, q * px, q * px, q * px);
    let mut c = Case::new();
    c.state(img.hash());
    let f = if grey { find_grey(&img, 0, 255) } else { find(&img) };
    c.out(if grey { "grey" } else { "bits" });
    // thresholding smears the edge of a symbol that touches the image border
    let want = seen(&m, d);
    expect_one(&mut c, &f, &s, if grey && q == 0 { None } else { Some(&want) });
    c
}

pub fn c11(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v: Vec<Up> = Vec::new();
    let pxs: &[usize] = if thorough { &[2, 3, 4, 5, 6, 7, 8, 9, 11, 13] } else { &[2, 3, 5] };
    for ver in (1..=40).rev() {
        for &px in pxs {
            for q in [0, 1, 4] {
                for d in 0..8 {
                    for g in [false, true] {
                        v.push((ver, (ver + d + q) % 4, (ver + px + d) % 8, px, q, d, g));
                    }
                }
            }
        }
    }
    f.push(listed(
        "upright",
        format!("versions 1-40 x {pxs:?} pixels per module x quiet zone 0, 1, 4 x 8 orientations x bitmap and greyscale"),
        v,
        upright,
    ));
    let mut v: Vec<Up> = Vec::new();
    for ver in 1..=40 {
        for l in 0..4 {
            for mask in 0..8 {
                v.push((ver, l, mask, 2, 4, (ver + l + mask) % 8, (l + mask) % 2 == 1));
            }
        }
    }
    f.push(listed("levels and masks", "versions 1-40 x 4 levels x 8 masks at 2 pixels per module", v, upright));
    let mut v: Vec<Up> = Vec::new();
    for ver in [1, 2, 3, 7] {
        for px in (10..=if thorough { 200 } else { 100 }).step_by(if thorough { 1 } else { 9 }) {
            for d in 0..8 {
                if ver * px > 700 {
                    continue;
                }
                for g in [false, true] {
                    v.push((ver, d % 4, px % 8, px, 4, d, g));
                }
            }
        }
    }
    f.push(listed("large modules", "versions 1, 2, 3, 7, up to 100 (200) pixels per module, 8 orientations", v, upright));
    let mut v: Vec<Up> = Vec::new();
    let huge: &[(usize, usize)] =
        if thorough { &[(1, 400), (2, 200), (2, 270), (3, 230), (7, 150), (14, 90), (40, 45)] } else { &[(1, 300), (2, 200), (3, 150), (7, 100), (40, 20)] };
    for &(ver, px) in huge {
        for d in 0..8 {
            v.push((ver, d % 4, px % 8, px, 4, d, d % 2 == 1));
        }
    }
    f.push(listed("huge images", format!("versions and pixels per module {huge:?}: images of up to 46 (100) million pixels, 8 orientations"), v, upright));
    let mut v: Vec<(usize, usize, usize, [usize; 4], bool)> = Vec::new();
    let ms: &[usize] = if thorough { &[0, 1, 2, 3, 5, 8, 40] } else { &[0, 1, 3, 40] };
    for ver in [1, 2, 5, 8] {
        for px in [2, 3] {
            for k in 0..ms.len().pow(4) {
                let mut x = Ix(k as u64);
                let m = [0; 4].map(|_| ms[x.take(ms.len())]);
                v.push((ver, px, k % 8, m, false));
            }
        }
    }
    f.push(listed(
        "placement",
        format!("versions 1, 2, 5, 8 x 2, 3 pixels per module x all margins out of {ms:?} pixels on the four sides"),
        v,
        |&(ver, px, d, [l, t, r, b], grey)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let img = render(&m.dihedral(d), px, l, t, r, b);
            let mut c = Case::new();
            c.state(img.hash());
            let f = if grey { find_grey(&img, 0, 255) } else { find(&img) };
            expect_one(&mut c, &f, &s, Some(&seen(&m, d)));
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1, 2, 7] {
        for px in if thorough { 2..=4 } else { 2..=2 } {
            for x in 0..=40 {
                for y in 0..=if ver == 1 || thorough { 40 } else { 8 } {
                    v.push((ver, px, x, y, (x + y) % 8));
                }
            }
        }
    }
    f.push(listed(
        "every place",
        "versions 1, 2, 7 at 2 (thorough: 2-4) pixels per module, 0 to 40 pixels from the left and from the top (quick: at most 8 from the top for versions 2 and 7)",
        v,
        |&(ver, px, x, y, d)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let img = render(&m.dihedral(d), px, x, y, 3, 3);
            let mut c = Case::new();
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize, usize, bool)> = Vec::new();
    let far: &[usize] = if thorough {
        &[127, 128, 250, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32700, 32767, 32768, 46340, 46341, 65500, 65535, 65536]
    } else {
        &[127, 250, 256, 512, 1023, 2048, 4096, 8192, 16384, 32700, 32768, 46341, 65500, 65536]
    };
    for ver in [1, 2, 7] {
        for &a in far {
            for t in [false, true] {
                for px in [2, 3] {
                    v.push((ver, px, a, (a + px) % 8, t));
                }
            }
        }
    }
    f.push(listed(
        "far away",
        format!("versions 1, 2, 7 at 2, 3 pixels per module, {far:?} pixels from the left (the top) of a wide (high) image"),
        v,
        |&(ver, px, a, d, t)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let (x, y) = if t { (a, 5) } else { (5, a) };
            let img = render(&m.dihedral(d), px, x, y, 5, 5);
            let mut c = Case::new();
            c.state(img.hash());
            let f = find(&img);
            expect_one(&mut c, &f, &s, Some(&seen(&m, d)));
            if let [f] = &f[..] {
                let (w, n) = (f.bounds[0], (m.n * px) as i64);
                if !(x as i64 - n..=x as i64 + 2 * n).contains(&(w.0 as i64)) || !(y as i64 - n..=y as i64 + 2 * n).contains(&(w.1 as i64)) {
                    c.fail(format!("found at {w:?}, drawn at {:?}", (x, y)));
                }
            }
            c
        },
    ));
    let mut v: Vec<Up> = Vec::new();
    for ver in [1, 2, 3, 6, 7, 14] {
        for px in 2..=if thorough { 60 } else { 30 } {
            if ver * px < 300 {
                for d in [px % 8, (px + 3) % 8] {
                    v.push((ver, d % 4, (px + d) % 8, px, 4, d, (px + ver + d) % 2 == 1));
                }
            }
        }
    }
    f.push(listed("every scale", "versions 1, 2, 3, 6, 7, 14 at every number of pixels per module from 2 to 30 (60)", v, upright));
    let mut v: Vec<(usize, usize, usize, bool)> = Vec::new();
    for ver in 1..=9 {
        for px in [8, 12, 16] {
            for deg in (0..360).step_by(if thorough { 1 } else { 5 }) {
                for g in [false, true] {
                    if ver > 1 || px > 8 {
                        v.push((ver, px, deg, g));
                    }
                }
            }
        }
    }
    f.push(listed(
        "turned",
        format!(
            "versions 1-9 x 8 (not version 1), 12, 16 pixels per module x angles in steps of {} degrees; from version 2 on sampled exactly",
            if thorough { 1 } else { 5 }
        ),
        v,
        |&(ver, px, deg, grey)| {
            let n = size(ver);
            let side = (n * px) as f64;
            let w = ((n + 8) * px * 3 / 2) & !1;
            let q = turned(side, deg as f64, w as f64 / 2.0, w as f64 / 2.0);
            let mir = deg % 2 * 4;
            let (s, m, img) = clean_warp(ver, if ver == 1 { 2 } else { 1 }, 3, mir, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            let f = if grey { find_grey(&img, 0, 255) } else { find(&img) };
            expect_one(&mut c, &f, &s, Some(&seen(&m, mir)).filter(|_| ver > 1));
            c
        },
    ));
    let mut v: Vec<(usize, usize, [usize; 4], bool)> = Vec::new();
    let pxs: &[usize] = if thorough { &[10, 13, 16] } else { &[10] };
    for &px in pxs {
        for ver in 1..=7 {
            for k in 0..5usize.pow(4) {
                let mut x = Ix(k as u64);
                v.push((ver, px, [0; 4].map(|_| x.take(5)), k % 2 == 1));
            }
        }
    }
    f.push(listed(
        "perspective",
        format!("versions 1-7 at {pxs:?} pixels per module: each corner pulled inwards by 0 to 4 fortieths of the side; from version 2 on sampled exactly"),
        v,
        |&(ver, px, k, grey)| {
            let n = size(ver);
            let w = (n + 8) * px;
            let q = pulled((n * px) as f64, (4 * px) as f64, k);
            let (s, m, img) = clean_warp(ver, if ver == 1 { 2 } else { 1 }, 3, 0, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            let f = if grey { find_grey(&img, 0, 255) } else { find(&img) };
            expect_one(&mut c, &f, &s, Some(&m).filter(|_| ver > 1));
            c
        },
    ));
    let mut v: Vec<(usize, usize, [usize; 4], usize)> = Vec::new();
    for ver in [2, 3, 4, 5, 6] {
        for px in [10, 13] {
            if px == 13 && !thorough {
                continue;
            }
            for k in 0..3usize.pow(4) {
                for deg in (0..360).step_by(if thorough { 5 } else { 30 }) {
                    let mut x = Ix(k as u64);
                    v.push((ver, px, [0; 4].map(|_| [0, 1, 3][x.take(3)]), deg + 5 * (k % 6)));
                }
            }
        }
    }
    f.push(listed(
        "perspective and turned",
        "versions 2-6 at 10 (thorough: 13) pixels per module: each corner pulled inwards by 0, 1, 3 fortieths of the side, then turned in steps of 30 (5) degrees, plain and mirrored; sampled exactly",
        v,
        |&(ver, px, k, deg)| {
            let n = size(ver);
            let w = ((n + 8) * px * 3 / 2) & !1;
            let side = (n * px) as f64;
            let h = w as f64 / 2.0;
            let (sn, cs) = (deg as f64).to_radians().sin_cos();
            let q = pulled(side, (w as f64 - side) / 2.0, k)
                .map(|(x, y)| (h + (x - h) * cs - (y - h) * sn, h + (x - h) * sn + (y - h) * cs));
            let mir = deg / 5 % 2 * 4;
            let (s, m, img) = clean_warp(ver, 1, 3, mir, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&m, mir)));
            c
        },
    ));
    Property { id: "C11", assumptions: vec!["symbols are drawn so that no modules other than the finder patterns imitate one (1:1:3:1:1 cut through two zones of plausible sizes), decided by the model on the drawn image".into(), "greyscale symbols that touch the border of the image are required to be read, not to be sampled without a wrong cell".into()], families: f }
}
/// Corner `k` of the symbol in reading order (top-left, top-right, ...) as it
/// lies in the image, clockwise from the corner between the other finders.
fn corners(q: [(f64, f64); 4], d: usize) -> [(f64, f64); 4] {
    // a quarter turn moves the top-left corner to the top-right
    let mut r = q;
    r.rotate_left(match d {
        0 | 4 => 0,
        1 | 5 => 1,
        2 | 6 => 2,
        _ => 3,
    });
    r
}

fn expect_bounds(c: &mut Case, f: &[Found], q: [(f64, f64); 4], n: usize) {
    c.call();
    if f.len() != 1 {
        c.fail(format!("{} grids found, the image shows one symbol", f.len()));
        return;
    }
    if f[0].mods.n != n {
        c.fail(format!("grid of {} cells, drawn {n}", f[0].mods.n));
    }
    let inv = Homog::square_to(n as f64, q).inverse();
    let nf = n as f64;
    let ideal = [(0.0, 0.0), (nf, 0.0), (nf, nf), (0.0, nf)];
    for (k, &(x, y)) in f[0].bounds.iter().enumerate() {
        let (u, v) = inv.at(x as f64, y as f64);
        let dev = (u - ideal[k].0).abs().max((v - ideal[k].1).abs());
        let out = |t: f64, i: f64| if i == 0.0 { t.abs() <= 1.0 } else { (-1.0..=2.0).contains(&(t - i)) };
        if !out(u, ideal[k].0) || !out(v, ideal[k].1) {
            c.fail(format!(
                "bound {k} is ({x}, {y}), {dev:.1} modules off the {} corner of the symbol",
                ["top-left", "top-right", "bottom-right", "bottom-left"][k]
            ));
        }
    }
}

pub fn c16(thorough: bool) -> Property {
    let mut f = Vec::new();
    let pxs: &[usize] = if thorough { &[2, 3, 4, 5, 6, 8, 11] } else { &[2, 5] };
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for &px in pxs {
            for (mx, my) in [(0, 0), (8, 8), (3, 41), (50, 1)] {
                for d in 0..8 {
                    v.push((ver, px, mx, my, d));
                }
            }
        }
    }
    f.push(listed(
        "upright",
        format!("versions 1-40 x {pxs:?} pixels per module x four positions x 8 orientations"),
        v,
        |&(ver, px, mx, my, d)| {
            let (_s, m) = clean(ver, 1, 4, 0, 0);
            let img = render(&m.dihedral(d), px, mx, my, mx + 5, my + 9);
            let mut c = Case::new();
            c.state(img.hash());
            let (l, t, e) = (mx as f64, my as f64, (m.n * px) as f64);
            let q = corners([(l, t), (l + e, t), (l + e, t + e), (l, t + e)], d);
            expect_bounds(&mut c, &find(&img), q, m.n);
            c
        },
    ));
    let mut v = Vec::new();
    for ver in [1usize, 2, 3, 5, 7, 9] {
        for deg in (0..360usize).step_by(if thorough { 1 } else { 5 }) {
            for mir in [0, 4] {
                v.push((ver, deg, mir));
            }
        }
    }
    f.push(listed(
        "turned",
        "versions 1, 2, 3, 5, 7, 9 at 12 pixels per module, all angles (quick: steps of 5 degrees), plain and mirrored",
        v,
        |&(ver, deg, mir)| {
            let n = size(ver);
            let side = (n * 12) as f64;
            let w = ((n + 8) * 18) & !1;
            let q = turned(side, deg as f64, w as f64 / 2.0, w as f64 / 2.0);
            let (_s, _m, img) = clean_warp(ver, 1, 3, mir, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            expect_bounds(&mut c, &find(&img), q, n);
            c
        },
    ));
    let mut v: Vec<(usize, [usize; 4])> = Vec::new();
    for ver in [1, 2, 4, 7] {
        for k in 0..5usize.pow(4) {
            let mut x = Ix(k as u64);
            v.push((ver, [0; 4].map(|_| x.take(5))));
        }
    }
    f.push(listed(
        "perspective",
        "versions 1, 2, 4, 7 at 10 pixels per module: each corner pulled inwards by 0 to 4 fortieths of the side",
        v,
        |&(ver, k)| {
            let n = size(ver);
            let w = (n + 8) * 10;
            let q = pulled((n * 10) as f64, 40.0, k);
            let (_s, _m, img) = clean_warp(ver, 1, 3, 0, w, w, q);
            let mut c = Case::new();
            c.state(img.hash());
            expect_bounds(&mut c, &find(&img), q, n);
            c
        },
    ));
    Property { id: "C16", assumptions: vec!["a bound is right if it lies within one module of the corner of the symbol, and at most two beyond it at the far sides".into()], families: f }
}

fn pulled(side: f64, o: f64, k: [usize; 4]) -> [(f64, f64); 4] {
    let t = k.map(|k| side * k as f64 / 40.0);
    [
        (o + t[0], o + t[0]),
        (o + side - t[1], o + t[1]),
        (o + side - t[2], o + side - t[2]),
        (o + t[3], o + side - t[3]),
    ]
}

/// Several symbols: each is found exactly once and read, and nothing else is.
fn expect_all(c: &mut Case, f: &[Found], want: &[(Symbol, Modules)]) {
    c.call();
    let mut left: Vec<usize> = (0..want.len()).collect();
    for g in f {
        c.call();
        match left.iter().position(|&i| g.res == Ok(want[i].0.meta()) && g.out == want[i].0.out) {
            Some(k) => {
                let i = left.remove(k);
                if g.mods != want[i].1 {
                    c.fail(format!("cells of symbol {i} differ from the drawing"));
                }
            }
            None => c.fail(format!(
                "a grid of {} cells reads {:?} {}, which is none of the (remaining) symbols",
                g.mods.n,
                g.res,
                hex(&g.out)
            )),
        }
    }
    if !left.is_empty() {
        c.fail(format!("{} grids found, symbols {left:?} are missing", f.len()));
    }
}

/// The same without looking at single cells.
fn expect_read(c: &mut Case, f: &[Found], want: &[(Symbol, Modules)]) {
    let mut g = f.to_vec();
    for x in &mut g {
        if let Some(w) = want.iter().find(|w| x.res == Ok(w.0.meta()) && x.out == w.0.out) {
            x.mods = w.1.clone();
        }
    }
    expect_all(c, &g, want);
}

/// Centres of the finder patterns of an upright symbol.
pub fn finders(n: usize, px: usize, x: usize, y: usize, d: usize) -> Vec<(f64, f64)> {
    let mut mark = Modules::new(n);
    for (r, c) in [(0, 0), (0, n - 1), (n - 1, 0)] {
        mark.set(r, c, true);
    }
    let mark = mark.dihedral(d);
    let mut v = Vec::new();
    for r in [0, n - 1] {
        for c in [0, n - 1] {
            if mark.get(r, c) {
                let at = |k: usize| if k == 0 { 3.5 } else { n as f64 - 3.5 };
                v.push((x as f64 + at(c) * px as f64, y as f64 + at(r) * px as f64));
            }
        }
    }
    v
}

/// Could three finder patterns of different upright symbols be taken for the
/// corners of one, by their position alone?  They can if they lie like the
/// finder patterns of one of the symbols: at a right angle, at equal distances,
/// and at that symbol's distance.
pub fn mistakable(groups: &[(usize, usize, Vec<(f64, f64)>)]) -> bool {
    let all: Vec<(usize, (f64, f64))> =
        groups.iter().enumerate().flat_map(|(g, v)| v.2.iter().map(move |&p| (g, p))).collect();
    for &(g0, p) in &all {
        let mut hs = Vec::new();
        let mut vs = Vec::new();
        for &(g, q) in &all {
            let (dx, dy) = ((q.0 - p.0).abs(), (q.1 - p.1).abs());
            if dx == 0.0 && dy == 0.0 {
                continue;
            }
            if dx < 0.22 * dy {
                vs.push((g, dy));
            }
            if dy < 0.22 * dx {
                hs.push((g, dx));
            }
        }
        let px = groups[g0].1 as f64;
        for h in &hs {
            for v in &vs {
                if h.0 == g0 && v.0 == g0 {
                    continue;
                }
                let (lo, hi) = (h.1.min(v.1), h.1.max(v.1));
                let ds = [g0, h.0, v.0].map(|g| groups[g].0 as f64 - 7.0);
                let dmin = ds.iter().cloned().fold(f64::MAX, f64::min);
                let dmax = ds.iter().cloned().fold(0.0, f64::max);
                if lo / hi > 0.9 && (0.9 * dmin..=1.1 * dmax).contains(&(hi / px)) {
                    return true;
                }
            }
        }
    }
    false
}

pub fn c12(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v = Vec::new();
    let vs: &[usize] = &[1, 2, 3, 5, 7, 10];
    for &a in vs {
        for &b in vs {
            for (pa, pb) in [(2usize, 2usize), (2, 3), (4, 2), (3, 3)] {
                for d in 0..64 {
                    for place in 0..4 {
                        if !thorough && (d * 7 + a + b + place + pa * 5) % 4 != 0 {
                            continue;
                        }
                        v.push((a, b, pa, pb, d % 8, d / 8, place));
                    }
                }
            }
        }
    }
    f.push(listed(
        "two symbols",
        "versions 1, 2, 3, 5, 7, 10 x same x four pairs of module sizes x 8 x 8 orientations x beside, below, diagonal, shifted (quick: every fourth)",
        v,
        |&(a, b, pa, pb, da, db, place)| {
            let (sa, ma) = clean(a, 1, 4, 0, 1);
            let (sb, mb) = clean(b, 0, 2, 0, 2);
            let (wa, wb, gap) = (ma.n * pa, mb.n * pb, 4 * pa.max(pb));
            let (xb, yb) = match place {
                0 => (gap + wa + gap, gap),
                1 => (gap, gap + wa + gap),
                2 => (gap + wa + gap, gap + wa + gap),
                _ => (gap + wa + gap, gap + wa / 3),
            };
            let mut c = Case::new();
            if mistakable(&[(ma.n, pa, finders(ma.n, pa, gap, gap, da)), (mb.n, pb, finders(mb.n, pb, xb, yb, db))]) {
                c.out("mistakable");
                return c;
            }
            let mut img = Img::new((xb + wb).max(gap + wa) + gap, (yb + wb).max(gap + wa) + gap);
            img.blit(&ma.dihedral(da), pa, gap, gap);
            img.blit(&mb.dihedral(db), pb, xb, yb);
            c.state(img.hash());
            let want = [(sa, seen(&ma, da)), (sb, seen(&mb, db))];
            expect_all(&mut c, &find(&img), &want);
            c
        },
    ));
    let gaps: Vec<usize> = if thorough { (2..17).collect() } else { vec![2, 4, 6, 9] };
    let mut v = Vec::new();
    for a in [1usize, 2, 3, 4, 5, 7] {
        for px in [2usize, 3] {
            for (cols, rows) in [(2usize, 1usize), (1, 2), (2, 2), (3, 1), (3, 2), (3, 3), (4, 4)] {
                for gap in gaps.clone() {
                     for d in 0..8 {
                        v.push((a, px, cols, rows, gap, d));
                    }
                }
            }
        }
    }
    for px in [2, 3] {
        for d in 0..8 {
            v.push((1, px, 10, 9, 4, d));
            v.push((2, px, 11, 8, 5, d));
        }
    }
    f.push(listed(
        "sheets",
        format!("versions 1, 2, 3, 4, 5, 7 x 2, 3 pixels per module, up to 4x4 symbols, gaps of {gaps:?} modules, 8 orientations; sheets of 90 and 88 symbols"),
        v, |&(a, px, cols, rows, gap, d)| {
        let n = size(a) * px;
        let g = gap * px;
        let mut img = Img::new(g + cols * (n + g), g + rows * (n + g));
        let mut want = Vec::new();
        let mut fs = Vec::new();
        for r in 0..rows {
            for k in 0..cols {
                let (s, m) = clean(a, 1, (r + k) % 8, 0, (r * 10 + k) as u64);
                img.blit(&m.dihedral(d), px, g + k * (n + g), g + r * (n + g));
                want.push((s, seen(&m, d)));
                fs.push((size(a), px, finders(size(a), px, g + k * (n + g), g + r * (n + g), d)));
            }
        }
        let mut c = Case::new();
        if mistakable(&fs) {
            c.out("mistakable");
            return c;
        }
        c.state(img.hash());
        expect_all(&mut c, &find(&img), &want);
        c
    }));
    let mut v: Vec<(usize, usize, usize, usize, [usize; 4], usize, usize)> = Vec::new();
    for (a, cols, rows) in [(1usize, 2usize, 2usize), (2, 2, 1), (2, 2, 2), (3, 1, 2), (4, 2, 2), (2, 3, 3), (7, 2, 1)] {
        for gap in [4usize, 7] {
            for k in 0..if a == 2 && cols == 2 || thorough { 3usize.pow(4) } else { 16 } {
                let mut x = Ix(k as u64);
                let base = if a == 2 && cols == 2 || thorough { 3 } else { 2 };
                let pull = [0; 4].map(|_| x.take(base));
                for deg in (0..360).step_by(if thorough { 15 } else { 90 }) {
                    v.push((a, cols, rows, gap, pull, deg + k % 5 * 17, k % 8));
                }
            }
        }
    }
    f.push(listed(
        "turned and tilted sheets",
        "sheets of 2 to 9 symbols of versions 1, 2, 3, 4, 7 at 10 pixels per module, gaps of 4 or 7 modules, each corner of the sheet pulled inwards by 0 to 2 fortieths, at angles in steps of 90 (15) degrees",
        v,
        |&(a, cols, rows, gap, pull, deg, d)| {
            let n = size(a);
            let (sw, sh) = (cols * (n + gap) + gap, rows * (n + gap) + gap);
            let px = 10.0;
            let r = (((sw * sw + sh * sh) as f64).sqrt() * px) as usize + 20;
            let (h, fw, fh) = (r as f64 / 2.0, sw as f64 * px, sh as f64 * px);
            let (sn, cs) = (deg as f64).to_radians().sin_cos();
            let t = pull.map(|k| k as f64 / 40.0);
            let q = [
                (t[0] * fw, t[0] * fh),
                (fw - t[1] * fw, t[1] * fh),
                (fw - t[2] * fw, fh - t[2] * fh),
                (t[3] * fw, fh - t[3] * fh),
            ]
            .map(|(x, y)| (x - fw / 2.0, y - fh / 2.0))
            .map(|(x, y)| (h + x * cs - y * sn, h + x * sn + y * cs));
            let hm = Homog::square_to(1.0, q);
            let inv = hm.inverse();
            let mut c = Case::new();
            let fs: Vec<_> = (0..cols * rows)
                .map(|k| (n, 1, finders(n, 1, gap + k % cols * (n + gap), gap + k / cols * (n + gap), d)))
                .collect();
            if mistakable(&fs) {
                c.out("mistakable");
                return c;
            }
            for salt in 0..60u64 {
                let mut sheet = Img::new(sw, sh);
                let mut want = Vec::new();
                let mut real = Vec::new();
                for row in 0..rows {
                    for col in 0..cols {
                        let (s, m) = clean(a, if a == 1 { 2 } else { 1 }, (row + col) % 8, 0, salt * 10 + (row * 3 + col) as u64);
                        let (x, y) = (gap + col * (n + gap), gap + row * (n + gap));
                        sheet.blit(&m.dihedral(d), 1, x, y);
                        for (fx, fy) in finders(n, 1, x, y, d) {
                            // the finder's outer ring, upper left module
                            real.push(hm.at((fx - 3.0) / sw as f64, (fy - 3.0) / sh as f64));
                        }
                        want.push((s, seen(&m, d)));
                    }
                }
                let mut img = Img::new(r, r);
                for y in 0..r {
                    for x in 0..r {
                        let (u, v) = inv.at(x as f64 + 0.5, y as f64 + 0.5);
                        if u >= 0.0 && v >= 0.0 && u < 1.0 && v < 1.0 {
                            img.set(x, y, sheet.get((u * sw as f64) as usize, (v * sh as f64) as usize));
                        }
                    }
                }
                let real: Vec<(usize, usize)> = real.iter().map(|p| (p.0 as usize, p.1 as usize)).collect();
                if imitations(&img, &real, 1.1) != 0 {
                    continue;
                }
                c.state(img.hash());
                if a == 1 {
                    expect_read(&mut c, &find(&img), &want);
                } else {
                    expect_all(&mut c, &find(&img), &want);
                }
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    Property { id: "C12", assumptions: vec!["symbols of one sheet have one orientation; pairs have all 64 combinations; scenes in which finder patterns of different symbols lie like those of one are left out (decided by the model)".into(), "no modules other than the finder patterns imitate one".into()], families: f }
}

/// Distractors: groups of bars in the proportion of a finder pattern, which are
/// not connected and so are none.  `n` groups in rows of `per`, from (x, y).
fn bars(img: &mut Img, n: usize, per: usize, x: usize, y: usize, kind: usize) {
    for i in 0..n {
        let (gx, gy) = (x + i % per * 16, y + i / per * 6);
        match kind {
            // 1:1:3:1:1, three zones
            0 => {
                img.rect(gx, gy, 1, 4, true);
                img.rect(gx + 2, gy, 3, 4, true);
                img.rect(gx + 6, gy, 1, 4, true);
            }
            // ring far too small for its stone
            1 => {
                img.rect(gx, gy, 1, 4, true);
                img.rect(gx + 2, gy, 3, 4, true);
                img.rect(gx + 6, gy, 1, 4, true);
                img.rect(gx, gy + 3, 7, 1, true);
            }
            // specks
            _ => {
                for k in 0..3 {
                    img.rect(gx + k * 5, gy + k, 1 + k % 2, 2, true);
                }
            }
        }
    }
}

const BARS: [&str; 3] = ["bars", "combs", "specks"];

fn clutter(v: usize, px: usize, d: usize, n: usize, kind: usize, place: usize) -> (Symbol, Modules, Img) {
    for salt in 0..50 {
        let (s, m) = clean(v, 1, 5, 0, salt);
        let side = m.n * px;
        let per = 14;
        let cw = per * 16;
        let rows = n.div_ceil(per);
        let ch = rows * 6;
        let q = 4 * px;
        let (w, h, sx, sy, bx, by) = match place {
            // above, below, left, right
            0 => (q + side.max(cw) + q, ch + q + side + 2 * q, q, ch + q, 2, 2),
            1 => (q + side.max(cw) + q, ch + q + side + 2 * q, q, q, 2, q + side + q),
            2 => (cw + side + 3 * q, (ch + 2).max(side) + 2 * q, cw + 2 * q, q, 2, 2),
            _ => (cw + side + 3 * q, (ch + 2).max(side) + 2 * q, q, q, 2 * q + side, 2),
        };
        let mut img = Img::new(w, h);
        bars(&mut img, n, per, bx, by, kind);
        img.blit(&m.dihedral(d), px, sx, sy);
        let real: Vec<(usize, usize)> =
            finders(m.n, px, sx, sy, d).iter().map(|&(x, y)| (x as usize - 3 * px, y as usize)).collect();
        if imitations(&img, &real, 0.6) == 0 {
            return (s, m, img);
        }
    }
    panic!("no unambiguous cluttered image");
}

pub fn c15(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v = Vec::new();
    let ns: Vec<usize> = (0..=if thorough { 1200 } else { 600 }).collect();
    for &n in &ns {
        for kind in 0..3 {
            for place in 0..4 {
                v.push(([1, 2, 7][(n + kind + place) % 3], 2 + n % 2, (n + place) % 8, n, kind, place));
            }
        }
    }
    f.push(listed(
        "clutter",
        format!("versions 1, 2, 7 with n groups of bars, combs or specks above, below, left or right, {} values of n from 0 to {}", ns.len(), ns.last().unwrap()),
        v,
        |&(ver, px, d, n, kind, place)| {
            let (s, m, img) = clutter(ver, px, d, n, kind, place);
            let mut c = Case::new();
            c.out(BARS[kind]);
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
            c
        },
    ));
    // every row of the image meets more zones than there are shades
    let mut v = Vec::new();
    for ver in [1usize, 2, 7] {
        for salt in 0..if thorough { 64 } else { 16u64 } {
            for n in [60, 80, 83, 84, 85, 90, 130, 170] {
                for side in 0..3usize {
                    v.push((ver, 2 + (salt as usize + n) % 2, (salt as usize + n + side) % 8, salt, n, side));
                }
            }
        }
    }
    f.push(listed(
        "tall bars",
        "versions 1, 2, 7 with 16 (64) contents, beside them 60 to 170 groups of three bars as tall as the image (left, right, both): every row meets 180 to 510 zones",
        v,
        |&(ver, px, d, salt, n, place)| {
            let (s, m) = clean(ver, 1, 5, 0, 100 + salt);
            let (side, q) = (m.n * px, 4 * px);
            let (l, r) = [(n, 0), (0, n), (n / 2, n - n / 2)][place];
            let g = 11;
            let sx = l * g + q;
            let mut img = Img::new(sx + side + q + r * g, side + 2 * q);
            for k in 0..n {
                let x = if k < l { k * g } else { sx + side + q + (k - l) * g };
                for (dx, w) in [(0, 1), (2, 3), (6, 1)] {
                    img.rect(x + dx, 0, w, img.h, true);
                }
            }
            img.blit(&m.dihedral(d), px, sx, q);
            let real: Vec<(usize, usize)> =
                finders(m.n, px, sx, q, d).iter().map(|&(x, y)| (x as usize - 3 * px, y as usize)).collect();
            let mut c = Case::new();
            if imitations(&img, &real, 0.6) != 0 {
                c.out("ambiguous");
                return c;
            }
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
            c
        },
    ));
    // deterministic noise in a frame around the symbol
    let mut v = Vec::new();
    for ver in [1usize, 2, 4, 7] {
        for dens in [1u64, 3, 6, 10, 15, 20, 30, 40, 50] {
            for k in 0..if thorough { 60 } else { 12 } {
                v.push((ver, 2 + k % 2, k % 8, dens, k as u64));
            }
        }
    }
    f.push(listed(
        "noise",
        "versions 1, 2, 4, 7 in a frame of numbered noise patterns, 1 to 50 % dark",
        v,
        |&(ver, px, d, dens, k)| {
            let mut c = Case::new();
            for salt in 0..200 {
                let (s, m) = clean(ver, 1, 5, 0, salt % 7);
                let side = m.n * px;
                let o = 40 + 4 * px;
                let mut img = Img::new(side + 2 * o, side + 2 * o);
                for y in 0..img.h {
                    for x in 0..img.w {
                        let v = mix2(k * 1000 + salt + dens * 77, (y * img.w + x) as u64) % 100 < dens;
                        img.set(x, y, v);
                    }
                }
                let z = 4 * px;
                img.rect(o - z, o - z, side + 2 * z, side + 2 * z, false);
                img.blit(&m.dihedral(d), px, o, o);
                let real: Vec<(usize, usize)> =
                    finders(m.n, px, o, o, d).iter().map(|&(x, y)| (x as usize - 3 * px, y as usize)).collect();
                if imitations(&img, &real, 0.6) != 0 {
                    continue;
                }
                c.state(img.hash());
                expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    let mut v = Vec::new();
    for ver in [7usize, 8, 10, 14] {
        for dist in (27..=if thorough { 40usize } else { 33 }).step_by(if thorough { 1 } else { 3 }) {
            for l in 1..8usize {
                for t in 1..8usize {
                    for d in 0..8 {
                        v.push((ver, dist, l, t, d));
                    }
                }
            }
        }
    }
    f.push(listed(
        "lone finder patterns",
        "versions 7, 8, 10, 14 with up to 3 further finder patterns beside and up to 3 above, 27, 30, 33 (27 to 40) modules off, 8 orientations",
        v,
        |&(ver, dist, l, t, d)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let px = 2;
            let n = m.n;
            let o = 14 + dist;
            let mut img = Img::new((o + n + 4) * px, (o + n + 4) * px);
            img.blit(&m.dihedral(d), px, o * px, o * px);
            for (k, off) in [-5i32, 5, 15].iter().enumerate() {
                let far = if k == 2 { 10 } else { 0 };
                let (a, b) = (((o - dist - far) * px), (o as i32 + off) as usize * px);
                if l >> k & 1 == 1 {
                    put_finder(&mut img, px, a, b);
                }
                if t >> k & 1 == 1 {
                    put_finder(&mut img, px, b, a);
                }
            }
            let mut c = Case::new();
            c.state(img.hash());
            expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
            c
        },
    ));
    let mut v = Vec::new();
    for ver in [1usize, 2, 4, 7] {
        for q in 1..=4usize {
            for px in [2usize, 3] {
                for dens in [5u64, 20, 50, 80, 100] {
                    for d in 0..8 {
                        v.push((ver, q, px, dens, d));
                    }
                }
            }
        }
    }
    f.push(listed(
        "narrow quiet zone",
        "versions 1, 2, 4, 7 with a quiet zone of 1 to 4 modules in a frame of noise, 5 to 100 % dark, 8 orientations",
        v,
        |&(ver, q, px, dens, d)| {
            let mut c = Case::new();
            for salt in 0..100 {
                let (s, m) = clean(ver, 1, 5, 0, salt % 7);
                let side = m.n * px;
                let z = q * px;
                let o = 20 + z;
                let mut img = Img::new(side + 2 * o, side + 2 * o);
                for y in 0..img.h {
                    for x in 0..img.w {
                        let v = mix2(salt + dens * 77, (y * img.w + x) as u64) % 100 < dens;
                        img.set(x, y, v);
                    }
                }
                img.rect(o - z, o - z, side + 2 * z, side + 2 * z, false);
                img.blit(&m.dihedral(d), px, o, o);
                let real: Vec<(usize, usize)> =
                    finders(m.n, px, o, o, d).iter().map(|&(x, y)| (x as usize - 3 * px, y as usize)).collect();
                if imitations(&img, &real, 0.6) != 0 {
                    continue;
                }
                c.state(img.hash());
                expect_one(&mut c, &find(&img), &s, Some(&seen(&m, d)));
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    Property { id: "C15", assumptions: vec!["clutter contains no imitation of a finder pattern (decided by the model on the image)".into()], families: f }
}

pub fn put_finder(img: &mut Img, px: usize, x: usize, y: usize) {
    img.rect(x, y, 7 * px, 7 * px, true);
    img.rect(x + px, y + px, 5 * px, 5 * px, false);
    img.rect(x + 2 * px, y + 2 * px, 3 * px, 3 * px, true);
}

/// Something like a finder pattern.
#[derive(Clone, Copy, Debug)]
enum Fake {
    /// runs of these widths in pixels
    Profile([usize; 5]),
    /// the ring without its upper and lower side
    Bars,
    /// the stone joined to the ring on one of four sides
    Joined(usize),
    /// a stone of one pixel height
    Dot,
    /// this many modules high
    Tall(usize),
}
impl Fake {
    fn runs(self, px: usize) -> [usize; 5] {
        match self {
            Fake::Profile(r) => r,
            _ => [px, px, 3 * px, px, px],
        }
    }
    fn w(self, px: usize) -> usize {
        self.runs(px).iter().sum()
    }
    fn h(self, px: usize) -> usize {
        match self {
            Fake::Tall(h) => h * px,
            _ => 7 * px,
        }
    }
    fn draw(self, img: &mut Img, px: usize, x: usize, y: usize) {
        let (r, w, h) = (self.runs(px), self.w(px), self.h(px));
        img.rect(x, y, w, h, true);
        let hole = if let Fake::Bars = self { (y, h) } else { (y + px, h - 2 * px) };
        img.rect(x + r[0], hole.0, w - r[0] - r[4], hole.1, false);
        let sx = x + r[0] + r[1];
        match self {
            Fake::Dot => img.rect(sx, y + 3 * px, r[2], 1, true),
            _ => img.rect(sx, y + 2 * px, r[2], h - 4 * px, true),
        }
        match self {
            Fake::Joined(0) => img.rect(sx, y + px, px, px, true),
            Fake::Joined(1) => img.rect(sx + 2 * px, y + 5 * px, px, px, true),
            Fake::Joined(2) => img.rect(x + px, y + 3 * px, px, px, true),
            Fake::Joined(_) => img.rect(x + 5 * px, y + 2 * px, px, 1, true),
            _ => (),
        }
    }
}

pub fn c20(thorough: bool) -> Property {
    let mut f = Vec::new();
    // up to two finder patterns anywhere, everything else blank or noise
    let mut v = Vec::new();
    let step = if thorough { 1 } else { 3 };
    for px in [1usize, 2, 3] {
        for x in (0..40).step_by(step) {
            for y in (0..40).step_by(step) {
                for dens in [0u64, 2, 20] {
                    v.push((px, x, y, dens));
                }
            }
        }
    }
    f.push(listed(
        "two finder patterns",
        "one finder pattern and another at every offset (quick: every third), blank background or numbered noise",
        v,
        |&(px, x, y, dens)| {
            let mut c = Case::new();
            let n = 40 + 10 * px;
            for salt in 0..100u64 {
                let mut img = Img::new(n + 7 * px, n + 7 * px);
                for yy in 0..img.h {
                    for xx in 0..img.w {
                        img.set(xx, yy, mix2(salt * 3 + dens, (yy * img.w + xx) as u64) % 100 < dens);
                    }
                }
                let o = 2 * px;
                img.rect(0, 0, 11 * px, 11 * px, false);
                img.rect((o + x).saturating_sub(2 * px), (o + y).saturating_sub(2 * px), 11 * px, 11 * px, false);
                put_finder(&mut img, px, o, o);
                put_finder(&mut img, px, o + x, o + y);
                let real = [(o, o), (o + x, o + y)];
                if imitations(&img, &real, 0.6) != 0 {
                    continue;
                }
                c.state(img.hash());
                c.call();
                let f = find(&img);
                if !f.is_empty() {
                    c.fail(format!("{} grids found in an image with two finder patterns", f.len()));
                }
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    // three finder patterns and nothing else
    let mut v = Vec::new();
    for px in [1usize, 2, 4] {
        for d in (10..=if thorough { 60usize } else { 30 }).step_by(2) {
            for dx in [-2i32, -1, 0, 1, 2] {
                for dy in [-2i32, -1, 0, 1, 2] {
                    for rot in 0..4 {
                        v.push((px, d, dx, dy, rot));
                    }
                }
            }
        }
    }
    f.push(listed(
        "no timing pattern",
        "three finder patterns at a right angle with nothing between them, four orientations",
        v,
        |&(px, d, dx, dy, rot)| {
            let mut c = Case::new();
            let n = (d + 13) * px;
            let mut img = Img::new(n, n);
            let at = |k: usize, e: i32| ((2 + k * d) * px) as i32 + e;
            let all = [(0, 0), (1, 0), (0, 1), (1, 1)];
            for (i, &(a, b)) in all.iter().enumerate() {
                if i != rot {
                    let (ex, ey) = if i == (rot + 1) % 4 { (dx, dy) } else { (0, 0) };
                    put_finder(&mut img, px, at(a, ex).max(0) as usize, at(b, ey).max(0) as usize);
                }
            }
            c.state(img.hash());
            c.call();
            let f = find(&img);
            if !f.is_empty() {
                c.fail(format!("a grid of {} cells found where no symbol is", f[0].mods.n));
            }
            c
        },
    ));
    // a symbol with one finder pattern wiped out
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for which in 0..3 {
            for how in 0..3 {
                for d in 0..8 {
                    if !thorough && (ver + which + how + d) % 3 != 0 {
                        continue;
                    }
                    v.push((ver, which, how, d));
                }
            }
        }
    }
    f.push(listed(
        "finder pattern destroyed",
        "versions 1-40: one of the three finder patterns blank, solid or without its stone, 8 orientations",
        v,
        |&(ver, which, how, d)| {
            let mut c = Case::new();
            for salt in 0..100 {
                let (_s, mut m) = clean(ver, 1, 5, 0, salt);
                let n = m.n;
                let (oy, ox) = [(0, 0), (0, n - 7), (n - 7, 0)][which];
                for y in 0..7 {
                    for x in 0..7 {
                        let v = match how {
                            0 => false,
                            1 => true,
                            _ => y == 0 || x == 0 || y == 6 || x == 6,
                        };
                        m.set(oy + y, ox + x, v);
                    }
                }
                let px = 2 + ver % 2;
                let img = render(&m.dihedral(d), px, 8, 8, 8, 8);
                let real: Vec<(usize, usize)> =
                    finders(n, px, 8, 8, d).iter().map(|&(x, y)| (x as usize - 3 * px, y as usize)).collect();
                if imitations(&img, &real, 0.6) != 0 {
                    continue;
                }
                c.state(img.hash());
                c.call();
                let f = find(&img);
                if !f.is_empty() {
                    c.fail(format!("a grid of {} cells found with two finder patterns", f[0].mods.n));
                }
                return c;
            }
            c.out("none unambiguous");
            c
        },
    ));
    // patterns that are nearly finder patterns in place of one or all of them
    let mut v: Vec<(usize, usize, Fake, usize, usize)> = Vec::new();
    for (ver, px) in [(1usize, 4usize), (1, 3), (2, 4), (3, 3), (5, 3), (7, 4), (7, 2), (10, 3)] {
        for which in 0..4 {
            let mut fakes = vec![Fake::Bars, Fake::Joined(0), Fake::Joined(1), Fake::Joined(2), Fake::Joined(3)];
            if px >= 3 {
                fakes.push(Fake::Dot);
            }
            if ver >= 5 {
                fakes.extend((13..=17).map(Fake::Tall));
            }
            let lim = 8 * px;
            // the outer runs alike, the stone of any width
            for a in 1..lim / 4 {
                for c in 1..=lim - 4 * a {
                    fakes.push(Fake::Profile([a, a, c, a, a]));
                }
            }
            // one of the five runs of any width
            for k in 0..5 {
                for r in 1..=lim {
                    let mut f = [px, px, 3 * px, px, px];
                    f[k] = r;
                    if f.iter().sum::<usize>() <= lim {
                        fakes.push(Fake::Profile(f));
                    }
                }
            }
            for (i, fake) in fakes.into_iter().enumerate() {
                for d in 0..8 {
                    if thorough || (i + which + d) % 4 == 0 {
                        v.push((ver, px, fake, which, d));
                    }
                }
            }
        }
    }
    f.push(listed(
        "almost finder patterns",
        "versions 1-10: one or all of the finder patterns replaced by something similar: runs of other widths (all widths of the stone for all widths of the others, all widths of each run), two bars without top and bottom, stone joined to the ring, a dot for the stone, rings of twice the height; 8 orientations",
        v,
        |&(ver, px, fake, which, d)| {
            let mut c = Case::new();
            for salt in 0..20 {
                let (_s, m) = clean(ver, 1, 5, 0, salt);
                let n = m.n;
                let o = 4 * px;
                let mut img = render(&m.dihedral(d), px, o, o, o, o);
                let mut real = Vec::new();
                for (i, &(x, y)) in finders(n, px, o, o, d).iter().enumerate() {
                    let (x, y) = ((x - 3.5 * px as f64) as usize, (y - 3.5 * px as f64) as usize);
                    if which != 3 && which != i {
                        real.push((x, y + 3 * px));
                        continue;
                    }
                    let (fw, fh, right, low) = (fake.w(px), fake.h(px), x > o, y > o);
                    // with its separator, at the same corner of the symbol
                    let bh = fh.max(7 * px) + px;
                    img.rect(if right { x - px } else { x }, if low { y + 7 * px - bh } else { y }, 8 * px, bh, false);
                    fake.draw(&mut img, px, if right { x + 7 * px - fw } else { x }, if low { y + 7 * px - fh } else { y });
                }
                if imitations_by(&img, &real, |r| finder_like(r, 0.6) || finder_like_rounded(r)) != 0 {
                    continue;
                }
                c.state(img.hash());
                c.call();
                let f = find(&img);
                if !f.is_empty() {
                        c.fail(format!("a grid of {} cells found with {fake:?} for finder patterns", f[0].mods.n));
                }
                return c;
            }
            c.out("good enough an imitation");
            c
        },
    ));
    Property { id: "C20", assumptions: vec!["noise contains no imitation of a finder pattern (decided by the model on the image)".into()], families: f }
}

/// Luminance of a symbol image with light falling in unevenly: the light at the
/// four corners is given, in between it is interpolated.  Dark modules reflect
/// `refl` percent.
fn lit(img: &Img, at: [usize; 4], refl: usize, x: usize, y: usize) -> u8 {
    let (fx, fy) = (x as f64 / (img.w - 1) as f64, y as f64 / (img.h - 1) as f64);
    let l = at[0] as f64 * (1.0 - fx) * (1.0 - fy)
        + at[1] as f64 * fx * (1.0 - fy)
        + at[2] as f64 * (1.0 - fx) * fy
        + at[3] as f64 * fx * fy;
    if img.get(x, y) {
        (l * refl as f64 / 100.0) as u8
    } else {
        l as u8
    }
}

pub fn c19(thorough: bool) -> Property {
    let mut f = Vec::new();
    let mut v = Vec::new();
    for l in 60..=255usize {
        for d in 0..=l / 2 {
            v.push((d as u8, l as u8));
        }
    }
    f.push(listed(
        "shades",
        "every light shade from 60 up with every dark shade up to half of it",
        v,
        |&(d, l)| {
            let mut c = Case::new();
            let ver = [1, 2, 4][d as usize % 3];
            let o = (d as usize + l as usize) % 8;
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let px = 3 + l as usize % 2;
            let img = render(&m.dihedral(o), px, 4 * px, 4 * px, 4 * px, 4 * px);
            c.state(hash_u64s(&[img.hash(), d as u64, l as u64]));
            expect_one(&mut c, &find_grey(&img, d, l), &s, Some(&seen(&m, o)));
            c
        },
    ));
    let mut v = Vec::new();
    let shades: &[usize] = if thorough { &[140, 180, 220, 255] } else { &[150, 200, 255] };
    for ver in [1usize, 2, 3, 7, 14] {
        for k in 0..shades.len().pow(4) {
            let mut x = Ix(k as u64);
            let at = [0; 4].map(|_| shades[x.take(shades.len())]);
            for refl in [0usize, 20, 40] {
                for d in 0..if thorough { 8 } else { 2 } {
                    v.push((ver, at, refl, (d * 3 + k) % 8));
                }
            }
        }
    }
    f.push(listed(
        "uneven light",
        format!("versions 1, 2, 3, 7, 14, light at each corner out of {shades:?}, dark modules reflecting 0, 20, 40 %"),
        v,
        |&(ver, at, refl, d)| {
            let mut c = Case::new();
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let px = 3;
            let img = render(&m.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
            c.state(hash_u64s(&[img.hash(), refl as u64, at.iter().fold(0, |a, &b| a * 256 + b as u64)]));
            let f = find_grey_fn(img.w, img.h, |x, y| lit(&img, at, refl, x, y));
            expect_one(&mut c, &f, &s, None);
            c
        },
    ));
    f.push(Family::new(
        "uniform",
        256 * 14 * 14,
        "every shade on every image of up to 13 x 13 pixels (each side also times 5)",
        |i| format!("shade {} on {} x {}", i % 256, i / 256 % 14, i / 256 / 14),
        |i| {
            let (g, w, h) = ((i % 256) as u8, (i / 256 % 14) as usize, (i / 256 / 14) as usize);
            let mut c = Case::new();
            c.state(i);
            for k in [1, 5] {
                c.call();
                let p = rqrr::PreparedImage::prepare_from_greyscale(w * k, h * k, |_, _| g);
                if let Some(at) = crate::shades!(p).iter().position(|&s| s != 0) {
                    c.fail(format!("pixel {at} of a uniform {}x{} image of shade {g} is dark", w * k, h * k));
                }
            }
            c
        },
    ));
    let mut v: Vec<(usize, usize, u8, u8, usize)> = Vec::new();
    let long: &[usize] = if thorough { &[300, 600, 1200, 2060, 2100, 4100, 4200, 8300, 16500, 33000, 66000] } else { &[600, 2060, 2100, 4200, 8300, 16500] };
    for &len in long {
        for (d, l) in [(0u8, 255u8), (127, 255), (100, 200), (30, 60), (0, 60), (60, 255)] {
            for at in 0..6 {
                v.push((len, at % 3, d, l, at / 3));
            }
        }
    }
    f.push(listed(
        "wide and high images",
        format!("a version 3 symbol at the left, in the middle, at the right of an image {long:?} pixels wide (or at the top, in the middle, at the bottom of one as high), six pairs of shades"),
        v,
        |&(len, at, d, l, tall)| {
            let mut c = Case::new();
            let px = 6;
            let o = (at + len / 100) % 8;
            let (s, m) = clean(3, 1, 4, 0, 0);
            let (side, q) = (m.n * px, 4 * px);
            let (a, b) = (q + (len - side - 2 * q) * at / 2, side + 2 * q);
            let mut img = if tall == 0 { Img::new(len, b) } else { Img::new(b, len) };
            let (x, y) = if tall == 0 { (a, q) } else { (q, a) };
            img.blit(&m.dihedral(o), px, x, y);
            c.state(hash_u64s(&[img.hash(), d as u64, l as u64]));
            expect_one(&mut c, &find_grey(&img, d, l), &s, Some(&seen(&m, o)));
            c
        },
    ));
    f.push(Family::new(
        "uniform lines",
        5000 * 2 * 6,
        "every width (and every height) from 1 to 5000, two pixels the other way, six shades",
        |i| format!("case {i}"),
        |i| {
            let mut x = Ix(i);
            let g = [0u8, 1, 60, 128, 254, 255][x.take(6)];
            let t = x.take(2);
            let n = x.take(5000) + 1;
            let (w, h) = if t == 0 { (n, 2) } else { (2, n) };
            let mut c = Case::new();
            c.state(i);
            c.call();
            let p = rqrr::PreparedImage::prepare_from_greyscale(w, h, |_, _| g);
            if let Some(at) = crate::shades!(p).iter().position(|&s| s != 0) {
                c.fail(format!("pixel {at} of a uniform {w}x{h} image of shade {g} is dark"));
            }
            c
        },
    ));
    // small images over few shades
    let shapes: Vec<(usize, usize, usize)> = if thorough {
        vec![(1, 9, 4), (9, 1, 4), (3, 3, 4), (2, 4, 4), (4, 2, 4), (17, 1, 2), (18, 1, 2), (8, 2, 2), (9, 2, 2), (2, 9, 2)]
    } else {
        vec![(1, 7, 4), (7, 1, 4), (3, 2, 4), (2, 3, 4), (16, 1, 2), (8, 2, 2), (2, 8, 2), (4, 4, 2)]
    };
    let mut v = Vec::new();
    for (w, h, n) in shapes {
        for k in 0..(n as u64).pow((w * h) as u32) {
            v.push((w, h, n, k));
        }
    }
    f.push(listed(
        "all small images",
        "all images of some small shapes over 4 (2) shades: only black and white result, and the lightest pixels are white",
        v,
        |&(w, h, n, k)| {
            let mut c = Case::new();
            let pal: &[u8] = if n == 2 { &[30, 220] } else { &[0, 90, 180, 255] };
            let mut x = Ix(k);
            let px: Vec<u8> = (0..w * h).map(|_| pal[x.take(n)]).collect();
            c.state(hash_bytes((w * 100 + h) as u64, &px));
            c.call();
            let p = rqrr::PreparedImage::prepare_from_greyscale(w, h, |x, y| px[y * w + x]);
            let sh = crate::shades!(p);
            let max = *px.iter().max().unwrap();
            for (i, &s) in sh.iter().enumerate() {
                if s > 1 {
                    c.fail(format!("pixel {i} has shade {s} after preparation"));
                }
                if s == 1 && px[i] == max {
                    c.fail(format!("pixel {i} is one of the lightest and becomes dark, image {px:?}"));
                }
            }
            c
        },
    ));
    Property { id: "C19", assumptions: vec!["light at least 60 and dark at most half of it; uneven light from 150 (thorough: 140) to 255, dark modules reflecting at most 40 %".into()], families: f }
}
