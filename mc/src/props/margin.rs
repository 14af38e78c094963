//! C26 white space around an image changes nothing.

use super::bad::{spoil, HOW};
use crate::canvas::*;
use crate::engine::*;
use crate::qr::*;
use crate::util::*;
use crate::{bitmap, search, shades};

/// The image in a larger white one.
fn padded(i: &Img, left: usize, top: usize, right: usize, bottom: usize) -> Img {
    let mut r = Img::new(left + i.w + right, top + i.h + bottom);
    for y in 0..i.h {
        for x in 0..i.w {
            r.set(left + x, top + y, i.get(x, y));
        }
    }
    r
}

/// Search, and search again: grids and shades.
fn history(i: &Img) -> (Vec<Vec<Found>>, Vec<u8>) {
    let mut p = bitmap!(i);
    let f = (0..2).map(|_| search!(p)).collect();
    (f, shades!(p))
}

/// The grids found in the image moved right and down, moved back.
fn moved(c: &mut Case, img: &Img, to: &[(usize, usize)]) {
    let big = padded(img, img.w / 2 + 1, img.h / 2 + 1, img.w / 2 + 1, img.h / 2 + 1);
    c.state(big.hash());
    c.call();
    let f = find(&big);
    c.out(["nothing found", "one grid found", "several grids found"][f.len().min(2)]);
    for &(x, y) in to {
        let p = padded(&big, x, y, 0, 0);
        c.state(p.hash());
        c.call();
        let g = find(&p);
        if f.len() != g.len() {
            c.fail(format!("{} grids instead of {} with {x} white columns to the left and {y} white rows above", g.len(), f.len()));
            return;
        }
        for (a, b) in f.iter().zip(&g) {
            let far = a.bounds.iter().zip(&b.bounds).any(|(p, q)| (q.0 - x as i32 - p.0).abs() > 1 || (q.1 - y as i32 - p.1).abs() > 1);
            let res = a.res.is_ok() != b.res.is_ok() || a.out != b.out;
            if far || res || a.mods != b.mods {
                c.fail(format!("with {x} white columns to the left and {y} white rows above: a grid of {} cells is found elsewhere, is another one, or reads differently", a.mods.n));
                return;
            }
        }
    }
}

const PADS: [(usize, usize); 8] = [(1, 0), (0, 1), (1, 1), (7, 3), (64, 0), (0, 150), (333, 5), (2, 400)];

fn right_below(c: &mut Case, img: &Img, pads: &[(usize, usize)]) {
    let img = padded(img, 1, 1, img.w / 2 + 1, img.h / 2 + 1);
    c.state(img.hash());
    let (f, s) = history(&img);
    c.call();
    c.out(["nothing found", "one grid found", "several grids found"][f[0].len().min(2)]);
    for &(r, b) in pads {
        let p = padded(&img, 0, 0, r, b);
        c.state(p.hash());
        c.call();
        let (g, t) = history(&p);
        if f != g {
            let d = f.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(0);
            c.fail(format!(
                "search {} with {r} white columns to the right and {b} white rows below: {} grids instead of {}, or others",
                d + 1,
                g[d].len(),
                f[d].len()
            ));
            return;
        }
        for y in 0..p.h {
            for x in 0..p.w {
                let want = if x < img.w && y < img.h { s[y * img.w + x] } else { 0 };
                if t[y * p.w + x] != want {
                    c.fail(format!("with {r} white columns to the right and {b} white rows below, pixel ({x},{y}) has shade {} instead of {want}", t[y * p.w + x]));
                    return;
                }
            }
        }
    }
}

pub fn c26(thorough: bool) -> Property {
    let mut f = Vec::new();
    let pads = move |k: usize| -> Vec<(usize, usize)> {
        if thorough {
            PADS.to_vec()
        } else {
            vec![PADS[k % 8], PADS[(k / 3 + 5) % 8]]
        }
    };
    let mut v: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
    for ver in 1..=40usize {
        for px in [2usize, 3] {
            for d in 0..8 {
                for how in 0..=HOW.len() {
                    if ver > 7 && (ver + how + d + px) % if thorough { 4 } else { 16 } != 0 {
                        continue;
                    }
                    v.push((ver, px, d, how, (ver + d) % 3));
                }
            }
        }
    }
    f.push(listed(
        "one symbol",
        "versions 1-40, good or spoilt in 9 ways, 8 orientations, without quiet zone, searched twice: white space of 1 to 400 pixels to the right and below changes neither the grids nor any shade, to the left and above it moves them",
        v,
        move |&(ver, px, d, how, salt)| {
            let mut c = Case::new();
            let (_, mut m) = clean(ver, 1, d, 0, 0);
            if how < HOW.len() {
                spoil(&mut m, ver, how, salt as u64);
            }
            let img = render(&m.dihedral(d), px, 0, 0, 0, 0);
            right_below(&mut c, &img, &pads(ver + d + how));
            moved(&mut c, &img, &pads(ver + d + how));
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 3, 7] {
        for how in 0..HOW.len() {
            for bad in 0..4 {
                for d in 0..8 {
                    v.push((ver, how, bad, d));
                }
            }
        }
    }
    f.push(listed("four symbols", "four symbols of versions 1, 2, 3, 7, one of them spoilt in 9 ways, 8 orientations", v, move |&(ver, how, bad, d)| {
        let mut c = Case::new();
        let (px, step) = (2, (size(ver) + 4) * 2);
        let mut img = Img::new(2 * step, 2 * step);
        for k in 0..4 {
            let (_, mut m) = clean(ver, 1, k, 0, k as u64);
            if k == bad {
                spoil(&mut m, ver, how, d as u64);
            }
            img.blit(&m.dihedral(d), px, k % 2 * step, k / 2 * step);
        }
        right_below(&mut c, &img, &pads(ver + d + how + bad));
        if d % 2 == bad % 2 || thorough {
            moved(&mut c, &img, &pads(ver + d + how + bad));
        }
        c
    }));
    let mut v: Vec<(usize, usize, u64, usize)> = Vec::new();
    for ver in [1usize, 2, 4, 7, 10] {
        for px in [2usize, 3, 5] {
            for perm in (0..=300u64).step_by(if thorough { 4 } else { 20 }) {
                for d in 0..8 {
                    v.push((ver, px, perm, d));
                }
            }
        }
    }
    f.push(listed("wrong pixels", "versions 1, 2, 4, 7, 10 at 2, 3, 5 pixels per module, numbered patterns of 0 to 300 in a thousand pixels inverted, 8 orientations", v, move |&(ver, px, perm, d)| {
        let mut c = Case::new();
        let (_, m) = clean(ver, 1, d, 0, 0);
        let mut img = render(&m.dihedral(d), px, px, px, px, px);
        for (k, p) in img.px.iter_mut().enumerate() {
            *p ^= mix2(perm * 8 + d as u64, k as u64) % 1000 < perm;
        }
        right_below(&mut c, &img, &pads(ver + d + px + perm as usize));
        c
    }));
    let mut v: Vec<(usize, usize, [usize; 4])> = Vec::new();
    for ver in [1usize, 2, 4, 7] {
        for px in [3usize, 6] {
            for k in 0..if thorough { 6usize } else { 4 }.pow(4) {
                let mut x = Ix(k as u64);
                v.push((ver, px, [0; 4].map(|_| x.take(if thorough { 6 } else { 4 }))));
            }
        }
    }
    f.push(listed("perspective", "versions 1, 2, 4, 7 at 3, 6 pixels per module: each corner pulled inwards by 0 to 12 (20) fortieths of the side", v, move |&(ver, px, k)| {
        let (_, m) = clean(ver, 1, 4, 0, 0);
        let side = (m.n * px) as f64;
        let t = k.map(|k| side * k as f64 / 10.0 * 0.95);
        let q = [
            (t[0], t[0] * 0.9),
            (side - t[1], t[1] * 0.8),
            (side - t[2] * 0.9, side - t[2]),
            (t[3] * 0.8, side - t[3]),
        ];
        let img = warp(&m, m.n * px, m.n * px, q);
        let mut c = Case::new();
        right_below(&mut c, &img, &pads(ver + px + k[0] + k[1] * 3 + k[2] * 5));
        c
    }));
    Property { id: "C26", assumptions: vec!["the image is already black and white (the threshold of a greyscale image depends on its width), and half its side white to the right and below, so that no trial placement of a grid reaches beyond it".into()], families: f }
}
