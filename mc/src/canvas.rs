//! Binary canvases, symbol rendering and a model-side test for modules that
//! look like a finder pattern.

use crate::qr::*;
use crate::util::*;
use rqrr::{DeQRError, PreparedImage};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

#[derive(Clone, PartialEq, Eq)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub px: Vec<bool>,
}

impl Img {
    pub fn new(w: usize, h: usize) -> Img {
        Img { w, h, px: vec![false; w * h] }
    }
    #[inline]
    pub fn get(&self, x: usize, y: usize) -> bool {
        self.px[y * self.w + x]
    }
    #[inline]
    pub fn set(&mut self, x: usize, y: usize, v: bool) {
        self.px[y * self.w + x] = v
    }
    pub fn rect(&mut self, x: usize, y: usize, w: usize, h: usize, v: bool) {
        for yy in y..(y + h).min(self.h) {
            for xx in x..(x + w).min(self.w) {
                self.set(xx, yy, v);
            }
        }
    }
    pub fn blit(&mut self, m: &Modules, px: usize, ox: usize, oy: usize) {
        for y in 0..m.n * px {
            for x in 0..m.n * px {
                if ox + x < self.w && oy + y < self.h {
                    let v = m.get(y / px, x / px);
                    self.set(ox + x, oy + y, v);
                }
            }
        }
    }
    pub fn hash(&self) -> u64 {
        crate::engine::hash_bools((self.w as u64) << 32 | self.h as u64, &self.px)
    }
    /// Label the 4-connected dark components; 0 is light.
    pub fn label(&self) -> (Vec<u32>, Vec<usize>) {
        let mut lab = vec![0u32; self.px.len()];
        let mut cnt = vec![0usize];
        let mut st = Vec::new();
        for i in 0..self.px.len() {
            if !self.px[i] || lab[i] != 0 {
                continue;
            }
            let l = cnt.len() as u32;
            cnt.push(0);
            st.push(i);
            lab[i] = l;
            while let Some(j) = st.pop() {
                cnt[l as usize] += 1;
                let (x, y) = (j % self.w, j / self.w);
                let mut go = |k: usize| {
                    if self.px[k] && lab[k] == 0 {
                        lab[k] = l;
                        st.push(k);
                    }
                };
                if x > 0 {
                    go(j - 1);
                }
                if x + 1 < self.w {
                    go(j + 1);
                }
                if y > 0 {
                    go(j - self.w);
                }
                if y + 1 < self.h {
                    go(j + self.w);
                }
            }
        }
        (lab, cnt)
    }
    pub fn transpose(&self) -> Img {
        let mut r = Img::new(self.h, self.w);
        for y in 0..self.h {
            for x in 0..self.w {
                r.set(y, x, self.get(x, y));
            }
        }
        r
    }
}

/// One detected grid, everything a caller can see of it.
#[derive(Clone, PartialEq, Debug)]
pub struct Found {
    pub bounds: [(i32, i32); 4],
    pub mods: Modules,
    pub out: Vec<u8>,
    pub res: Result<Meta, DeQRError>,
}

/// Search a prepared image (of whatever buffer type) and read every grid.
#[macro_export]
macro_rules! search {
    ($p:expr) => {
        $p.detect_grids()
            .iter()
            .map(|g| {
                let (out, res) = $crate::util::dec_grid(g);
                $crate::canvas::Found {
                    bounds: g.bounds.map(|p| (p.x, p.y)),
                    mods: $crate::util::grid_modules(&g.grid),
                    out,
                    res,
                }
            })
            .collect::<Vec<$crate::canvas::Found>>()
    };
}
/// All shades of a prepared image.
#[macro_export]
macro_rules! shades {
    ($p:expr) => {{
        let (w, h) = ($p.width(), $p.height());
        let mut v: Vec<u8> = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                v.push($p.get_pixel_at(x, y).into());
            }
        }
        v
    }};
}
/// A prepared image of a canvas, from its bits or as `dark` on `light`.
#[macro_export]
macro_rules! bitmap {
    ($i:expr) => {{
        let i: &$crate::canvas::Img = $i;
        rqrr::PreparedImage::prepare_from_bitmap(i.w, i.h, |x, y| i.get(x, y))
    }};
}
#[macro_export]
macro_rules! grey {
    ($i:expr, $d:expr, $l:expr) => {{
        let i: &$crate::canvas::Img = $i;
        let (d, l): (u8, u8) = ($d, $l);
        rqrr::PreparedImage::prepare_from_greyscale(i.w, i.h, |x, y| if i.get(x, y) { d } else { l })
    }};
}

pub fn find(i: &Img) -> Vec<Found> {
    let mut p = bitmap!(i);
    search!(p)
}
pub fn find_grey(i: &Img, dark: u8, light: u8) -> Vec<Found> {
    let mut p = grey!(i, dark, light);
    search!(p)
}
pub fn find_grey_fn(w: usize, h: usize, f: impl FnMut(usize, usize) -> u8) -> Vec<Found> {
    let mut p = PreparedImage::prepare_from_greyscale(w, h, f);
    search!(p)
}

/// Do five consecutive runs, dark first, look like a cut through a finder?
/// Slightly more generous than 1:1:3:1:1 within 75 %.
pub fn finder_like(r: [usize; 5], slack: f64) -> bool {
    let avg = (r[0] + r[1] + r[3] + r[4]) as f64 / 4.0;
    let near = |x: usize, k: f64| (x as f64 - k * avg).abs() <= 0.75 * avg + slack;
    near(r[0], 1.0) && near(r[1], 1.0) && near(r[2], 3.0) && near(r[3], 1.0) && near(r[4], 1.0)
}

/// The same for a reader who calculates in whole pixels.
pub fn finder_like_rounded(r: [usize; 5]) -> bool {
    let avg = (r[0] + r[1] + r[3] + r[4]) / 4;
    let near = |x: usize, k: usize| x.abs_diff(k * avg) <= (3 * avg).div_ceil(4);
    near(r[0], 1) && near(r[1], 1) && near(r[2], 3) && near(r[3], 1) && near(r[4], 1)
}

/// Zones, other than the `real` finder rings (given by a point on each), that a
/// reader looking along rows may take for a finder pattern: a 1:1:3:1:1 cut
/// whose outer runs belong to one zone and whose middle belongs to another of
/// plausible size.
pub fn imitations(img: &Img, real: &[(usize, usize)], slack: f64) -> usize {
    imitations_by(img, real, |r| finder_like(r, slack))
}

pub fn imitations_by(img: &Img, real: &[(usize, usize)], like: impl Fn([usize; 5]) -> bool) -> usize {
    let (lab, cnt) = img.label();
    let rings: Vec<u32> = real.iter().map(|&(x, y)| lab[y * img.w + x]).collect();
    let mut bad = 0;
    let mut runs: Vec<(usize, usize)> = Vec::new();
    for y in 0..img.h {
        runs.clear();
        let mut x = 0;
        while x < img.w {
            let s = x;
            let v = img.get(s, y);
            while x < img.w && img.get(x, y) == v {
                x += 1;
            }
            runs.push((s, x - s));
        }
        for w in runs.windows(5) {
            if !img.get(w[0].0, y) || !like([w[0].1, w[1].1, w[2].1, w[3].1, w[4].1]) {
                continue;
            }
            let at = |i: usize| lab[y * img.w + w[i].0];
            let (l, c, r) = (at(0), at(2), at(4));
            if l != r || l == c || rings.contains(&r) {
                continue;
            }
            let ratio = cnt[c as usize] * 100 / cnt[r as usize];
            if (9..=71).contains(&ratio) {
                bad += 1;
            }
        }
    }
    bad
}

/// True if nothing but the finder patterns looks like one, along rows or
/// columns (so that the symbol may be turned).
pub fn unambiguous(m: &Modules) -> bool {
    let mut img = Img::new(m.n, m.n);
    img.blit(m, 1, 0, 0);
    // the transpose has its finders at the same places
    let real = [(0, 0), (m.n - 1, 0), (0, m.n - 1)];
    imitations(&img, &real, 0.6) == 0 && imitations(&img.transpose(), &real, 0.6) == 0
}

/// The first full symbol (seeds counted upwards) that is unambiguous.
pub fn clean(v: usize, lvl: usize, mask: usize, kind: usize, salt: u64) -> (Symbol, Modules) {
    type Key = (usize, usize, usize, usize, u64);
    static C: OnceLock<Mutex<HashMap<Key, (Symbol, Modules)>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let key = (v, lvl, mask, kind, salt);
    if let Some(r) = c.lock().unwrap().get(&key) {
        return r.clone();
    }
    for seed in 0..2000 {
        let s = Symbol::full(v, lvl, mask, kind, mix2(salt + 1000, seed));
        let m = s.modules();
        if unambiguous(&m) {
            c.lock().unwrap().insert(key, (s.clone(), m.clone()));
            return (s, m);
        }
    }
    panic!("no unambiguous symbol for version {v} level {lvl} mask {mask} kind {kind} salt {salt}");
}

/// A symbol on a canvas: `px` pixels per module, margins in pixels.
pub fn render(m: &Modules, px: usize, left: usize, top: usize, right: usize, bottom: usize) -> Img {
    let mut i = Img::new(left + m.n * px + right, top + m.n * px + bottom);
    i.blit(m, px, left, top);
    i
}

/// A projective map of the plane, row major, acting on (x, y, 1).
#[derive(Clone, Copy, Debug)]
pub struct Homog(pub [f64; 9]);
impl Homog {
    pub fn at(&self, x: f64, y: f64) -> (f64, f64) {
        let h = &self.0;
        let w = h[6] * x + h[7] * y + h[8];
        ((h[0] * x + h[1] * y + h[2]) / w, (h[3] * x + h[4] * y + h[5]) / w)
    }
    /// The map that takes the square of side `n` to the four points
    /// (top-left, top-right, bottom-right, bottom-left).
    pub fn square_to(n: f64, q: [(f64, f64); 4]) -> Homog {
        let (x0, y0) = q[0];
        let (x1, y1) = q[1];
        let (x2, y2) = q[2];
        let (x3, y3) = q[3];
        let (dx1, dx2, sx) = (x1 - x2, x3 - x2, x0 - x1 + x2 - x3);
        let (dy1, dy2, sy) = (y1 - y2, y3 - y2, y0 - y1 + y2 - y3);
        let d = dx1 * dy2 - dx2 * dy1;
        let g = (sx * dy2 - dx2 * sy) / d;
        let h = (dx1 * sy - sx * dy1) / d;
        let (a, b, c) = (x1 - x0 + g * x1, x3 - x0 + h * x3, x0);
        let (e, f, i) = (y1 - y0 + g * y1, y3 - y0 + h * y3, y0);
        Homog([a / n, b / n, c, e / n, f / n, i, g / n, h / n, 1.0])
    }
    pub fn inverse(&self) -> Homog {
        let m = &self.0;
        Homog([
            m[4] * m[8] - m[5] * m[7],
            m[2] * m[7] - m[1] * m[8],
            m[1] * m[5] - m[2] * m[4],
            m[5] * m[6] - m[3] * m[8],
            m[0] * m[8] - m[2] * m[6],
            m[2] * m[3] - m[0] * m[5],
            m[3] * m[7] - m[4] * m[6],
            m[1] * m[6] - m[0] * m[7],
            m[0] * m[4] - m[1] * m[3],
        ])
    }
}

/// Render the modules so that the corners of the symbol lie at `q`.
pub fn warp(m: &Modules, w: usize, h: usize, q: [(f64, f64); 4]) -> Img {
    let inv = Homog::square_to(m.n as f64, q).inverse();
    let mut i = Img::new(w, h);
    let n = m.n as f64;
    for y in 0..h {
        for x in 0..w {
            let (u, v) = inv.at(x as f64 + 0.5, y as f64 + 0.5);
            if u >= 0.0 && v >= 0.0 && u < n && v < n {
                i.set(x, y, m.get(v as usize, u as usize));
            }
        }
    }
    i
}

/// The four corners of a square of side `side` turned by `deg` about (cx, cy).
pub fn turned(side: f64, deg: f64, cx: f64, cy: f64) -> [(f64, f64); 4] {
    let (s, c) = deg.to_radians().sin_cos();
    let h = side / 2.0;
    [(-h, -h), (h, -h), (h, h), (-h, h)].map(|(x, y)| (cx + x * c - y * s, cy + x * s + y * c))
}

/// A symbol drawn with its corners at `q` such that nothing in the image
/// imitates a finder pattern: the first salt that qualifies.
pub fn clean_warp(
    v: usize,
    lvl: usize,
    mask: usize,
    d: usize,
    w: usize,
    h: usize,
    q: [(f64, f64); 4],
) -> (Symbol, Modules, Img) {
    for salt in 0..200 {
        let (s, m) = clean(v, lvl, mask, 0, salt);
        let md = m.dihedral(d);
        let img = warp(&md, w, h, q);
        // the real rings, wherever the orientation puts them
        let real: Vec<(usize, usize)> = {
            let n = m.n;
            let mut mark = Modules::new(n);
            for (y, x) in [(0, 0), (0, n - 1), (n - 1, 0)] {
                mark.set(y, x, true);
            }
            let mark = mark.dihedral(d);
            let hm = Homog::square_to(n as f64, q);
            let mut r = Vec::new();
            for y in [0, n - 1] {
                for x in [0, n - 1] {
                    if mark.get(y, x) {
                        let (a, b) = hm.at(x as f64 + 0.5, y as f64 + 0.5);
                        r.push((a as usize, b as usize));
                    }
                }
            }
            r
        };
        if imitations(&img, &real, 1.1) == 0 {
            return (s, m, img);
        }
    }
    panic!("no unambiguous drawing for version {v} with corners {q:?}");
}
