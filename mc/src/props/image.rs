//! C13 searching and reading any image is total, C14 searching only recolours
//! dark zones, C17 copies and repeated searches, C18 ways to hand in an image.

use crate::canvas::*;
use crate::engine::*;
use crate::util::*;
use crate::{bitmap, search, shades};
use image::{GenericImage, GenericImageView, GrayImage, Luma};
use rqrr::{Grid, Point, PreparedImage, SimpleGrid};
use std::cell::Cell;

/// A caller's own image type.  It counts accesses, and every access must stay
/// inside of the picture.
#[derive(Clone)]
pub struct Strict {
    w: u32,
    h: u32,
    px: Vec<Luma<u8>>,
    reads: Cell<u64>,
    writes: u64,
}

impl Strict {
    fn new(w: usize, h: usize, mut f: impl FnMut(usize, usize) -> u8) -> Strict {
        let mut px = Vec::new();
        for y in 0..h {
            for x in 0..w {
                px.push(Luma([f(x, y)]));
            }
        }
        Strict { w: w as u32, h: h as u32, px, reads: Cell::new(0), writes: 0 }
    }
    fn at(&self, x: u32, y: u32) -> usize {
        if x >= self.w || y >= self.h {
            panic!("pixel ({x}, {y}) of an image of {} x {} pixels was accessed", self.w, self.h);
        }
        y as usize * self.w as usize + x as usize
    }
}

impl GenericImageView for Strict {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
        self.reads.set(self.reads.get() + 1);
        self.px[self.at(x, y)]
    }
}

#[allow(deprecated)]
impl GenericImage for Strict {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Luma<u8> {
        let i = self.at(x, y);
        &mut self.px[i]
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        self.writes += 1;
        let i = self.at(x, y);
        self.px[i] = p;
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        self.put_pixel(x, y, p);
    }
}

fn strict(i: &Img) -> Strict {
    Strict::new(i.w, i.h, |x, y| i.get(x, y) as u8)
}
fn grey_image(i: &Img) -> GrayImage {
    GrayImage::from_fn(i.w as u32, i.h as u32, |x, y| Luma([i.get(x as usize, y as usize) as u8]))
}

/// Search and read everything there is, through every reading entry point.
fn totality(c: &mut Case, img: &Img) -> usize {
    c.state(img.hash());
    let mut p = PreparedImage::without_preparation(strict(img));
    c.call();
    let gs = p.detect_grids();
    let n = gs.len();
    for g in &gs {
        c.calls += 3;
        let m = grid_modules(&g.grid);
        if m.n < 21 || m.n > 177 || (m.n - 17) % 4 != 0 {
            c.fail(format!("a grid of {} cells is reported", m.n));
            continue;
        }
        let (_, r) = dec_grid(g);
        c.out(if r.is_ok() { "grid read" } else { "grid not readable" });
        let s = g.decode();
        if let (Ok((a, _)), Ok(b)) = (&s, &r) {
            if a.version.0 != b.v {
                c.fail("decode and decode_to disagree".into());
            }
        }
        let _ = g.get_raw_data();
    }
    drop(gs);
    // once more, on the image as the first search left it
    c.call();
    for g in &p.detect_grids() {
        let _ = dec_grid(g);
    }
    n
}

fn tiny_shapes(maxlog: u32) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for w in 0..=maxlog as usize {
        for h in 0..=maxlog as usize {
            if w * h <= maxlog as usize {
                v.push((w, h));
            }
        }
    }
    v
}

/// All images of all shapes with at most `area` pixels, numbered.
struct Tiny {
    shapes: Vec<(usize, usize)>,
    from: Vec<u64>,
    total: u64,
}
impl Tiny {
    fn new(area: u32) -> Tiny {
        let shapes = tiny_shapes(area);
        let mut from = vec![];
        let mut total = 0;
        for &(w, h) in &shapes {
            from.push(total);
            total += 1u64 << (w * h);
        }
        Tiny { shapes, from, total }
    }
    fn at(&self, i: u64) -> Img {
        let k = self.from.partition_point(|&f| f <= i) - 1;
        let (w, h) = self.shapes[k];
        let p = i - self.from[k];
        Img { w, h, px: (0..w * h).map(|b| p >> b & 1 == 1).collect() }
    }
}

fn show(i: &Img) -> String {
    let rows: Vec<String> = (0..i.h)
        .map(|y| (0..i.w).map(|x| if i.get(x, y) { '#' } else { '.' }).collect())
        .collect();
    format!("{}x{} {}", i.w, i.h, rows.join("/"))
}

/// Shapes that pass for a finder pattern in some row, in units of one module.
/// `#` ring, `o` stone.
const BLOBS: [&[&str]; 10] = [
    &["#######", "#.....#", "#.ooo.#", "#.ooo.#", "#.ooo.#", "#.....#", "#######"],
    // no corner bottom right
    &["#######", "#.....#", "#.ooo.#", "#.ooo.#", "#.ooo.#", "#......", "#######"],
    // open at the bottom
    &["#######", "#.....#", "#.ooo.#", "#.ooo.#", "#.ooo.#", "#.....#", "#.....#"],
    // flat
    &["#######", "#.ooo.#", "#######"],
    &["#######", "#.ooo.#"],
    // with arms
    &["###########", "#.....#....", "#.ooo.#....", "#.ooo.#....", "#.ooo.#....", "#.....#....", "#######...."],
    &["....#######", "....#.....#", "....#.ooo.#", "....#.ooo.#", "....#.ooo.#", "....#.....#", "###########"],
    // diamond
    &["...#...", "..#.#..", ".##.##.", "#.ooo.#", ".##.##.", "..#.#..", "...#..."],
    // slanted
    &["#######..", "#.....##.", "##.ooo.#.", ".#.ooo.##", ".##.ooo.#", "..#.....#", "..#######"],
    // tail
    &["#######", "#.....#", "#.ooo.#", "#.ooo.#", "#.ooo.#", "#.....#", "#######", "#......", "#......", "#......", "#......"],
];

fn put_blob(img: &mut Img, b: usize, sx: usize, sy: usize, x: usize, y: usize) {
    for (j, row) in BLOBS[b].iter().enumerate() {
        for (i, ch) in row.chars().enumerate() {
            img.rect(x + i * sx, y + j * sy, sx, sy, ch != '.');
        }
    }
}

type Trio = ([usize; 3], usize, [(usize, usize); 3], usize, usize);

/// Three blobs, and stripes of width `s` in the lower right as timing and data.
fn trio(&(b, px, at, s, w): &Trio) -> Img {
    let mut img = Img::new(w, w);
    if s > 0 {
        for y in 0..w {
            for x in 0..w {
                let v = match s % 3 {
                    0 => x / px % 2 == 0,
                    1 => (x / px + y / px) % 2 == 0,
                    _ => x / px % 2 == 0 && y / px % 2 == 0,
                };
                img.set(x, y, v);
            }
        }
        for k in 0..3 {
            let (x, y) = at[k];
            img.rect(x.saturating_sub(px), y.saturating_sub(px), 9 * px, 9 * px, false);
        }
    }
    for k in 0..3 {
        put_blob(&mut img, b[k], px, px, at[k].0, at[k].1);
    }
    img
}

pub fn c13(thorough: bool) -> Property {
    let mut f = Vec::new();
    let t = Tiny::new(if thorough { 20 } else { 17 });
    let t2 = Tiny::new(if thorough { 20 } else { 17 });
    f.push(Family::new(
        "all tiny images",
        t.total,
        format!("all black and white images with at most {} pixels, sides of length 0 included", if thorough { 20 } else { 17 }),
        move |i| show(&t2.at(i)),
        move |i| {
            let img = t.at(i);
            let mut c = Case::new();
            if totality(&mut c, &img) > 0 {
                c.fail("a grid in an image of a few pixels".into());
            }
            let mut p = PreparedImage::prepare(Strict::new(img.w, img.h, |x, y| if img.get(x, y) { 10 } else { 240 }));
            c.call();
            let _ = search!(p);
            c
        },
    ));
    // stacks of rows that build finder patterns and near misses
    const ROWS: [&str; 7] = ["#######", "#.###.#", "#.....#", ".......", "#.#####", "##.#.##", "#.#.#.#"];
    let heights: &[u32] = if thorough { &[5, 6, 7, 8] } else { &[4, 5, 6] };
    let mut from = vec![0u64];
    for &h in heights {
        from.push(from.last().unwrap() + 7u64.pow(h));
    }
    let hs = heights.to_vec();
    let stack = move |i: u64| {
        let k = from.partition_point(|&f| f <= i) - 1;
        let h = hs[k] as usize;
        let mut x = Ix(i - from[k]);
        let mut img = Img::new(7, h);
        for y in 0..h {
            let r = ROWS[x.take(7)].as_bytes();
            for x in 0..7 {
                img.set(x, y, r[x] == b'#');
            }
        }
        img
    };
    let stack2 = stack.clone();
    f.push(Family::new(
        "stacked rows",
        heights.iter().map(|&h| 7u64.pow(h)).sum(),
        format!("all images of width 7 and height {heights:?} with rows out of {ROWS:?}"),
        move |i| show(&stack(i)),
        move |i| {
            let mut c = Case::new();
            totality(&mut c, &stack2(i));
            c
        },
    ));
    // three shapes that may be taken for finder patterns
    let mut v: Vec<Trio> = Vec::new();
    let nb = BLOBS.len();
    for k in 0..nb.pow(3) {
        let b = [k % nb, k / nb % nb, k / nb / nb];
        for s in 0..4 {
            for (gi, &g) in [14usize, 18, 22, 30].iter().enumerate() {
                if !thorough && (k + s + gi) % 4 != 0 {
                    continue;
                }
                let px = 1 + (k + gi) % 3;
                for at in [
                    [(2, 2), (2 + g, 2), (2, 2 + g)],
                    [(2, 2), (2 + g, 2), (2 + g, 2 + g)],
                    [(2, 2), (2, 2 + g), (2 + g, 2 + g)],
                    [(2 + g, 2), (2, 2 + g), (2 + g, 2 + g)],
                    [(2, 3), (2 + g, 2), (4, 3 + g)],
                ] {
                    v.push((b, px, at.map(|(x, y)| (x * px, y * px)), s, (g + 14) * px));
                }
            }
        }
    }
    f.push(listed(
        "three blobs",
        "three shapes out of 10 (finder pattern, open, flat, with arms, slanted, ...) on five arrangements, blank or striped background",
        v,
        |t: &Trio| {
            let mut c = Case::new();
            totality(&mut c, &trio(t));
            c
        },
    ));
    // three true finder patterns anywhere
    let mut v: Vec<Trio> = Vec::new();
    let step = if thorough { 2 } else { 4 };
    for x in (0..32).step_by(step) {
        for y in (0..32).step_by(step) {
            for x2 in (0..32).step_by(step) {
                for y2 in (0..32).step_by(step) {
                    v.push(([0, 0, 0], 1, [(1, 1), (1 + x, 1 + y), (1 + x2, 1 + y2)], (x + y + x2 + y2) / step % 4, 42));
                }
            }
        }
    }
    f.push(listed(
        "three finder patterns",
        format!("three finder patterns, the second and third at all offsets 0..32 in steps of {step}, overlapping ones included"),
        v,
        |t: &Trio| {
            let mut c = Case::new();
            totality(&mut c, &trio(t));
            c
        },
    ));
    // symbols cut off, blotted, sheared, stretched
    let mut v: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 7] {
        let n = (17 + 4 * ver) * 2 + 8;
        for a in (0..n).step_by(if thorough { 1 } else { 2 }) {
            for kind in 0..4 {
                for d in 0..4 {
                    v.push((ver, kind, a, d, 0));
                }
            }
        }
    }
    f.push(listed(
        "cropped",
        "versions 1, 2, 7 at 2 pixels per module, every number of rows or columns cut off at either end, four orientations",
        v,
        |&(ver, kind, a, d, _)| {
            let (_s, m) = clean(ver, 1, 4, 0, 0);
            let img = render(&m.dihedral(d), 2, 4, 4, 4, 4);
            let (w, h) = if kind < 2 { (img.w - a, img.h) } else { (img.w, img.h - a) };
            let mut cut = Img::new(w, h);
            let (ox, oy) = [(0, 0), (a, 0), (0, 0), (0, a)][kind];
            for y in 0..h {
                for x in 0..w {
                    cut.set(x, y, img.get(x + ox, y + oy));
                }
            }
            let mut c = Case::new();
            totality(&mut c, &cut);
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
    for ver in [1usize, 2, 3, 7] {
        let n = 17 + 4 * ver;
        for k in 1..=if thorough { 9 } else { 5 } {
            let st = if thorough { 1 } else { 1 + ver / 3 };
            for x in (0..n).step_by(st) {
                for y in (0..n).step_by(st) {
                    v.push((ver, k, x, y, (x + y + k) % 3));
                }
            }
        }
    }
    f.push(listed(
        "blotted",
        "versions 1, 2, 3, 7: a square of 1 to 5 (9) modules anywhere is light, dark or inverted",
        v,
        |&(ver, k, bx, by, how)| {
            let (_s, mut m) = clean(ver, 1, 4, 0, 0);
            for y in by..(by + k).min(m.n) {
                for x in bx..(bx + k).min(m.n) {
                    let v = match how {
                        0 => false,
                        1 => true,
                        _ => !m.get(y, x),
                    };
                    m.set(y, x, v);
                }
            }
            let img = render(&m.dihedral((bx + by) % 8), 2, 4, 4, 4, 4);
            let mut c = Case::new();
            totality(&mut c, &img);
            c
        },
    ));
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    let hi = if thorough { 24 } else { 10 };
    for ver in [1usize, 2, 5, 10, 40] {
        for sx in 1..=hi {
            for sy in 1..=hi {
                if ver * sx * sy < 900 {
                    v.push((ver, sx, sy));
                }
            }
        }
        for l in [100usize, 400, 2300, 5000] {
            if ver < 10 && (ver == 1 || l < 1000) {
                v.push((ver, l, 1));
                v.push((ver, 1, l));
            }
        }
    }
    f.push(listed(
        "stretched",
        format!("versions 1, 2, 5, 10, 40, modules of 1 to {hi} by 1 to {hi} pixels and very long ones"),
        v,
        |&(ver, sx, sy)| {
            let (_s, m) = clean(ver, 1, 4, 0, 0);
            let mut img = Img::new(m.n * sx + 4, m.n * sy + 4);
            for y in 0..m.n {
                for x in 0..m.n {
                    if m.get(y, x) {
                        img.rect(2 + x * sx, 2 + y * sy, sx, sy, true);
                    }
                }
            }
            let mut c = Case::new();
            totality(&mut c, &img);
            c
        },
    ));
    let mut v: Vec<(usize, i64, i64, usize)> = Vec::new();
    for ver in [1usize, 2, 4, 7] {
        for a in -8i64..=8 {
            for b in -8i64..=8 {
                v.push((ver, a, b, (a + b).rem_euclid(8) as usize));
            }
        }
    }
    f.push(listed(
        "sheared",
        "versions 1, 2, 4, 7 sheared by -8 to 8 eighths in either direction, 8 orientations",
        v,
        |&(ver, a, b, d)| {
            let (_s, m) = clean(ver, 1, 4, 0, 0);
            let m = m.dihedral(d);
            let px = 4i64;
            let w = m.n as i64 * px * 3 + 10;
            let mut img = Img::new(w as usize, w as usize);
            for y in 0..w {
                for x in 0..w {
                    // inverse of (u, v) -> (u + a v / 8, v + b u / 8)
                    let (xx, yy) = ((x - w / 3) as f64, (y - w / 3) as f64);
                    let (fa, fb) = (a as f64 / 8.0, b as f64 / 8.0);
                    let det = 1.0 - fa * fb;
                    if det.abs() < 0.02 {
                        continue;
                    }
                    let u = ((xx - fa * yy) / det / px as f64).floor();
                    let v = ((yy - fb * xx) / det / px as f64).floor();
                    if u >= 0.0 && v >= 0.0 && u < m.n as f64 && v < m.n as f64 && m.get(v as usize, u as usize) {
                        img.set(x as usize, y as usize, true);
                    }
                }
            }
            let mut c = Case::new();
            totality(&mut c, &img);
            c
        },
    ));
    // finder patterns on very long images
    let mut v: Vec<(usize, bool, usize)> = Vec::new();
    for l in [1000usize, 5000, 6600, 6700, 8000, 10000, 20000, 40000] {
        for tall in [false, true] {
            for b in 0..nb {
                v.push((l, tall, b));
            }
        }
    }
    f.push(listed(
        "very long",
        "finder-like shapes with modules of 1 by 1000 to 1 by 40000 pixels",
        v,
        |&(l, tall, b)| {
            let rows = BLOBS[b].len();
            let cols = BLOBS[b][0].len();
            let (sx, sy) = if tall { (1, l) } else { (l, 1) };
            let mut img = Img::new(cols * sx + 2, rows * sy + 2);
            put_blob(&mut img, b, sx, sy, 1, 1);
            let mut c = Case::new();
            totality(&mut c, &img);
            c
        },
    ));
    // whole symbols and stray finders far from the origin
    let mut v: Vec<(usize, usize, usize, bool)> = Vec::new();
    for ver in [1usize, 2, 7] {
        for off in [30000usize, 46300, 46400, 65500, 65600, 120000] {
            for d in 0..8 {
                v.push((ver, off, d, d % 2 == 0));
            }
        }
    }
    f.push(listed(
        "far out",
        "versions 1, 2, 7 at the far end of an image up to 120000 pixels long",
        v,
        |&(ver, off, d, tall)| {
            let (s, m) = clean(ver, 1, 4, 0, 0);
            let img = if tall {
                render(&m.dihedral(d), 3, 4, off, 4, 4)
            } else {
                render(&m.dihedral(d), 3, off, 4, 4, 4)
            };
            let mut c = Case::new();
            c.state(img.hash());
            c.call();
            let f = find(&img);
            if f.len() != 1 || f[0].res != Ok(s.meta()) || f[0].out != s.out {
                c.fail(format!("{} grids, the first reads {:?}", f.len(), f.first().map(|f| &f.res)));
            }
            c
        },
    ));
    Property {
        id: "C13",
        assumptions: vec![
            "image sizes are bounded as stated per family; arithmetic is checked (debug assertions and overflow checks are on)".into(),
            "a call that burns 45 s of CPU time without returning counts as not terminating".into(),
        ],
        families: f,
    }
}

/// Scenes of different kinds, small to large, some with far more dark zones
/// than a byte can number.
fn scenes(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let k = if thorough { 4 } else { 1 };
    for i in 0..24 * k {
        v.push((0, i)); // symbols
    }
    for i in 0..40 * k {
        v.push((1, i)); // noise
    }
    for i in 0..30 * k {
        v.push((2, i)); // three blobs
    }
    for i in 0..30 * k {
        v.push((3, i)); // symbol among specks
    }
    for i in 0..20 * k {
        v.push((4, i)); // rows of finder patterns
    }
    v
}

fn scene(&(kind, i): &(usize, usize)) -> Img {
    match kind {
        0 => {
            let (_s, m) = clean(1 + i * 3 % 40, i % 4, i % 8, 0, 0);
            render(&m.dihedral(i % 8), 2 + i % 3, 4, 4, 4, 4)
        }
        1 => {
            let w = 20 + 13 * (i % 9);
            let h = 20 + 17 * (i % 7);
            let dens = [5, 20, 35, 45, 50, 55, 65, 80][i % 8];
            let cell = 1 + i / 8 % 3;
            let mut img = Img::new(w, h);
            for y in 0..h {
                for x in 0..w {
                    img.set(x, y, mix2(i as u64, (y / cell * 1000 + x / cell) as u64) % 100 < dens);
                }
            }
            img
        }
        2 => {
            let nb = BLOBS.len();
            let g = 14 + 4 * (i % 5);
            let px = 1 + i % 3;
            trio(&(
                [i % nb, i / 3 % nb, i / 7 % nb],
                px,
                [(2, 2), (2 + g, 2), (2, 2 + g)].map(|(x, y)| (x * px, y * px)),
                i % 4,
                (g + 14) * px,
            ))
        }
        3 => {
            let (_s, m) = clean([1, 2, 7][i % 3], 1, 5, 0, 0);
            let px = 2 + i % 2;
            let o = 30 + 10 * (i % 4);
            let mut img = Img::new(m.n * px + 2 * o, m.n * px + 2 * o);
            let (w, h) = (img.w, img.h);
            for y in 0..h {
                for x in 0..w {
                    // 1:1:3:1:1 in most rows, isolated zones
                    let v = match (i / 4) % 3 {
                        0 => x % 2 == 0 && y % 2 == 0,
                        1 => matches!(x % 10, 0 | 2 | 3 | 4 | 6) && y % 4 < 3,
                        _ => x % 3 == 0 && y % 5 < 3,
                    };
                    img.set(x, y, v);
                }
            }
            img.rect(o - 8, o - 8, m.n * px + 16, m.n * px + 16, false);
            img.blit(&m.dihedral(i % 8), px, o, o);
            img
        }
        _ => {
            let px = 1 + i % 2;
            let nx = 2 + i % 6;
            let ny = 1 + i / 6 % 4;
            let d = 8 + 2 * (i % 3);
            let mut img = Img::new((nx * d + 4) * px, (ny * d + 4) * px);
            for y in 0..ny {
                for x in 0..nx {
                    put_blob(&mut img, if (x + y + i) % 5 == 4 { 5 } else { 0 }, px, px, (1 + x * d) * px, (1 + y * d) * px);
                }
            }
            img
        }
    }
}

/// White stays white, dark stays dark, every dark zone has one shade.
fn zones(c: &mut Case, img: &Img, sh: &[u8], when: &str) {
    if sh.len() != img.px.len() {
        c.fail(format!("{when}: {} pixels, the image has {}", sh.len(), img.px.len()));
        return;
    }
    for i in 0..sh.len() {
        let (x, y) = (i % img.w, i / img.w);
        if (sh[i] != 0) != img.px[i] {
            c.fail(format!(
                "{when}: pixel ({x}, {y}) was {} and has shade {}",
                if img.px[i] { "black" } else { "white" },
                sh[i]
            ));
            return;
        }
        if x > 0 && img.px[i] && img.px[i - 1] && sh[i] != sh[i - 1] {
            c.fail(format!("{when}: touching dark pixels ({x}, {y}) and left of it have shades {} and {}", sh[i], sh[i - 1]));
            return;
        }
        if y > 0 && img.px[i] && img.px[i - img.w] && sh[i] != sh[i - img.w] {
            c.fail(format!("{when}: touching dark pixels ({x}, {y}) and above have shades {} and {}", sh[i], sh[i - img.w]));
            return;
        }
    }
}

fn recolour(c: &mut Case, img: &Img, rounds: usize) {
    c.state(img.hash());
    let mut p = bitmap!(img);
    let sh = shades!(p);
    if sh.iter().zip(&img.px).any(|(&s, &b)| s != b as u8) {
        c.fail("before the search an image holds more than its black and white".into());
    }
    for r in 0..rounds {
        c.call();
        {
            let gs = p.detect_grids();
            if !gs.is_empty() {
                c.out("grids");
            }
            let first: Vec<_> = gs.iter().map(|g| (grid_modules(&g.grid), dec_grid(g), g.bounds)).collect();
            for (k, g) in gs.iter().enumerate().rev() {
                // reading is repeatable, in any order, and is that of the cells
                c.calls += 3;
                let (m, d, b) = &first[k];
                if grid_modules(&g.grid) != *m || dec_grid(g) != *d || g.bounds != *b {
                    c.fail(format!("grid {k} changes when it is read again"));
                }
                let copy = Grid::new(SimpleGrid::from_func(m.n, |x, y| m.get(y, x)));
                if dec_grid(&copy) != *d {
                    c.fail(format!("grid {k} reads differently from a copy of its cells"));
                }
            }
        }
        let sh = shades!(p);
        zones(c, img, &sh, if r == 0 { "after the search" } else { "after another search" });
    }
}

pub fn c14(thorough: bool) -> Property {
    let mut f = Vec::new();
    let t = Tiny::new(if thorough { 18 } else { 15 });
    let t2 = Tiny::new(if thorough { 18 } else { 15 });
    f.push(Family::new(
        "all tiny images",
        t.total,
        format!("all black and white images with at most {} pixels", if thorough { 18 } else { 15 }),
        move |i| show(&t2.at(i)),
        move |i| {
            let img = t.at(i);
            let mut c = Case::new();
            recolour(&mut c, &img, 1);
            c
        },
    ));
    // two rings of zones around the second row: everything that a flood fill
    // has to get round
    let bits = if thorough { 20u32 } else { 16 };
    f.push(Family::new(
        "mazes",
        1 << bits,
        format!("a finder pattern with attached mazes: all 2^{bits} fillings of a 4 x {} field next to the ring", bits / 4),
        move |i| format!("filling {i:b}"),
        move |i| {
            let wd = bits as usize / 4;
            let mut img = Img::new(7 + wd, 9);
            put_blob(&mut img, 0, 1, 1, 0, 0);
            for k in 0..bits as usize {
                img.set(7 + k % wd, k / wd * 2 % 8 + (k / wd / 4), i >> k & 1 == 1);
            }
            // connect the field from row to row on alternating sides
            for y in [1usize, 3, 5] {
                img.set(7 + if y % 4 == 1 { wd - 1 } else { 0 }, y, true);
            }
            let mut c = Case::new();
            recolour(&mut c, &img, 1);
            c
        },
    ));
    f.push(listed(
        "scenes",
        "symbols, noise, finder-like shapes, up to thousands of dark zones; three searches each",
        scenes(thorough),
        |s| {
            let mut c = Case::new();
            recolour(&mut c, &scene(s), 3);
            c
        },
    ));
    // n zones that each look like a finder cut, around the capacity of a shade
    let mut v = Vec::new();
    for n in (0..if thorough { 700usize } else { 560 }).step_by(if thorough { 1 } else { 3 }).chain(if thorough { 0..0 } else { 240..270 }) {
        for per in [5usize, 16, 40] {
            for kind in 0..2 {
                v.push((n, per, kind));
            }
        }
    }
    f.push(listed(
        "many zones",
        "0 to 560 (700) zones tested one after another, three layouts, two shapes, then a symbol; two searches",
        v,
        |&(n, per, kind)| {
            let img = many(n, per, kind);
            let mut c = Case::new();
            recolour(&mut c, &img, 2);
            c
        },
    ));
    Property { id: "C14", assumptions: vec!["dark zones are taken as 4-connected".into()], families: f }
}

/// `n` groups of zones whose rows look like cuts through finder patterns but
/// are not, then a symbol below.
pub fn many(n: usize, per: usize, kind: usize) -> Img {
    let (_s, m) = clean(1, 1, 5, 0, 0);
    let rows = n.div_ceil(per);
    let mut img = Img::new((per * 10 + 4).max(m.n * 2 + 16), rows * 6 + m.n * 2 + 24);
    for k in 0..n {
        let (x, y) = (2 + k % per * 10, 1 + k / per * 6);
        if kind == 0 {
            // ring left and right not connected
            img.rect(x, y, 1, 3, true);
            img.rect(x + 2, y, 3, 3, true);
            img.rect(x + 6, y, 1, 3, true);
        } else {
            // connected, stone too small or connected to the ring
            img.rect(x, y, 7, 4, true);
            img.rect(x + 1, y, 1, 3, false);
            img.rect(x + 5, y, 1, 3, false);
            if k % 3 != 0 {
                img.rect(x + 2, y + 2, 3, 1, false);
            }
            if k % 3 == 1 {
                img.rect(x + 2, y + 1, 3, 1, false);
            }
        }
    }
    img.blit(&m, 2, 8, rows * 6 + 8);
    img
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    found: Vec<Found>,
    shades: Vec<u8>,
}

const OPS: [&str; 5] = ["search A", "search B", "B = copy of A", "A = copy of B", "swap"];

pub fn c17(thorough: bool) -> Property {
    let mut f = Vec::new();
    let get = |s: &(usize, usize)| {
        if s.0 == 100 {
            many([249, 252, 300, 520][s.1], 16, s.1 % 2)
        } else {
            scene(s)
        }
    };
    let mut wide: Vec<(usize, usize)> =
        scenes(false).into_iter().filter(|&(k, i)| if thorough { i < 16 } else { i < 6 && (k != 0 || i < 3) }).collect();
    wide.extend([(100, 0), (100, 1), (100, 2), (100, 3)]);
    let narrow = if thorough { vec![(0, 0), (2, 0), (3, 4), (100, 1)] } else { vec![(2, 0), (3, 4)] };
    for (name, sc, depth) in
        [("histories", wide, if thorough { 5u32 } else { 4 }), ("long histories", narrow, if thorough { 6 } else { 5 })]
    {
        let ns = sc.len() as u64;
        let sc2 = sc.clone();
        f.push(Family::new(
            name,
            ns * 5u64.pow(depth),
            format!("all sequences of {depth} operations out of {OPS:?} on {ns} scenes; the k-th search in the life of an image and its copies gives what the k-th search of an image that was never copied gives"),
            move |i| {
                let mut x = Ix(i);
                let s = sc2[x.take(sc2.len())];
                let ops: Vec<&str> = (0..depth).map(|_| OPS[x.take(5)]).collect();
                format!("scene {s:?}: {}", ops.join(", "))
            },
            move |i| {
                let mut x = Ix(i);
                let s = sc[x.take(sc.len())];
                let refs = reference(s, || get(&s));
                let img = &refs.0;
                let mut c = Case::new();
                let mut a = bitmap!(img);
                let mut b = bitmap!(img);
                let (mut ka, mut kb) = (0usize, 0usize);
                for step in 0..depth {
                    let op = x.take(5);
                    c.call();
                    let got = match op {
                        0 => {
                            ka += 1;
                            Some((ka, search!(a)))
                        }
                        1 => {
                            kb += 1;
                            Some((kb, search!(b)))
                        }
                        2 => {
                            b = a.clone();
                            kb = ka;
                            None
                        }
                        3 => {
                            a = b.clone();
                            ka = kb;
                            None
                        }
                        _ => {
                            std::mem::swap(&mut a, &mut b);
                            std::mem::swap(&mut ka, &mut kb);
                            None
                        }
                    };
                    c.state(hash_u64s(&[img.hash(), ka as u64, kb as u64]));
                    if let Some((k, got)) = got {
                        if got != refs.1[k].found {
                            c.fail(format!(
                                "step {step} ({}): search number {k} finds {} grids, without copies {} (or others)",
                                OPS[op],
                                got.len(),
                                refs.1[k].found.len()
                            ));
                        }
                    }
                    // only what the step touched may have changed, and only as it should
                    if shades!(a) != refs.1[ka].shades {
                        c.fail(format!("step {step} ({}): A does not look like an image after {ka} searches", OPS[op]));
                    }
                    if shades!(b) != refs.1[kb].shades {
                        c.fail(format!("step {step} ({}): B does not look like an image after {kb} searches", OPS[op]));
                    }
                }
                c
            },
        ));
    }
    // copies of single symbols: all versions
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for d in 0..8 {
            v.push((ver, d));
        }
    }
    f.push(listed(
        "symbols",
        "versions 1-40, 8 orientations: a copy made before the search, searched after it, and in the other order; a fresh image of the same pixels",
        v,
        |&(ver, d)| {
            let (s, m) = clean(ver, ver % 4, ver % 8, 0, 0);
            let img = render(&m.dihedral(d), 2, 6, 5, 4, 3);
            let mut c = Case::new();
            c.state(img.hash());
            c.calls += 4;
            let mut a = bitmap!(&img);
            let mut b = a.clone();
            let fa = search!(a);
            let untouched = shades!(b);
            let fb = search!(b);
            let fc = find(&img);
            if untouched.iter().any(|&s| s > 1) {
                c.fail("searching an image changed its copy".into());
            }
            if fa != fb || fa != fc {
                c.fail("the image, its copy and a fresh image do not give the same".into());
            }
            if fa.len() != 1 || fa[0].res != Ok(s.meta()) || fa[0].out != s.out {
                c.fail("the symbol is not read".into());
            }
            c
        },
    ));
    Property { id: "C17", assumptions: vec!["the reference is the crate itself on an image that was never copied; what a first search must find is decided by C11, C12, C15 and C20".into()], families: f }
}

type Ref = std::sync::Arc<(Img, Vec<Seen>)>;
fn reference(si: (usize, usize), img: impl FnOnce() -> Img) -> Ref {
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<std::collections::HashMap<(usize, usize), Ref>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(r) = c.lock().unwrap().get(&si) {
        return r.clone();
    }
    let img = img();
    let mut p = bitmap!(&img);
    let mut v = vec![Seen { found: vec![], shades: shades!(p) }];
    for _ in 0..8 {
        let found = search!(p);
        let sh = shades!(p);
        v.push(Seen { found, shades: sh });
    }
    let r: Ref = std::sync::Arc::new((img, v));
    c.lock().unwrap().insert(si, r.clone());
    r
}

/// Everything a prepared image shows, before and after a search.
macro_rules! dossier {
    ($p:expr) => {{
        let mut p = $p;
        let wh = (p.width(), p.height());
        let before = shades!(p);
        let found = search!(p);
        let after = shades!(p);
        (wh, before, found, after)
    }};
}

fn same_everywhere(c: &mut Case, img: &Img, dark: u8, light: u8) {
    c.state(hash_u64s(&[img.hash(), dark as u64, light as u64]));
    c.calls += 12;
    let lum = |x: usize, y: usize| if img.get(x, y) { dark } else { light };
    // bits
    let mut order: Vec<(usize, usize)> = Vec::new();
    let a = dossier!(PreparedImage::prepare_from_bitmap(img.w, img.h, |x, y| {
        order.push((x, y));
        img.get(x, y)
    }));
    asked(c, &mut order, img, "bitmap");
    let b = dossier!(PreparedImage::without_preparation(strict(img)));
    let d = dossier!(PreparedImage::without_preparation(grey_image(img)));
    if a.0 != (img.w, img.h) {
        c.fail(format!("an image of {} x {} pixels reports {:?}", img.w, img.h, a.0));
    }
    if a.1.iter().zip(&img.px).any(|(&s, &b)| s != b as u8) || a.1.len() != img.px.len() {
        c.fail("the prepared bitmap does not show the bits".into());
    }
    if a != b || a != d {
        c.fail("a bitmap and image buffers with the same bits do not give the same".into());
    }
    // luminance
    let a = dossier!(PreparedImage::prepare_from_greyscale(img.w, img.h, |x, y| {
        order.push((x, y));
        lum(x, y)
    }));
    asked(c, &mut order, img, "greyscale");
    let b = dossier!(PreparedImage::prepare(Strict::new(img.w, img.h, lum)));
    let d = dossier!(PreparedImage::prepare(GrayImage::from_fn(img.w as u32, img.h as u32, |x, y| Luma([
        lum(x as usize, y as usize)
    ]))));
    if a.0 != (img.w, img.h) {
        c.fail(format!("a greyscale image of {} x {} pixels reports {:?}", img.w, img.h, a.0));
    }
    if a != b || a != d {
        c.fail("a greyscale function and image buffers with the same luminance do not give the same".into());
    }
}

/// The function is asked for each pixel exactly once.
fn asked(c: &mut Case, order: &mut Vec<(usize, usize)>, img: &Img, what: &str) {
    let n = order.len();
    order.sort_unstable();
    order.dedup();
    if n != img.w * img.h || order.len() != n || order.iter().any(|&(x, y)| x >= img.w || y >= img.h) {
        c.fail(format!("the {what} function is called {n} times for {} pixels of {} x {}", order.len(), img.w, img.h));
    }
    order.clear();
}

pub fn c18(thorough: bool) -> Property {
    let mut f = Vec::new();
    let t = Tiny::new(if thorough { 16 } else { 12 });
    let t2 = Tiny::new(if thorough { 16 } else { 12 });
    f.push(Family::new(
        "all tiny images",
        t.total,
        format!("all black and white images with at most {} pixels, sides of length 0 included", if thorough { 16 } else { 12 }),
        move |i| show(&t2.at(i)),
        move |i| {
            let mut c = Case::new();
            same_everywhere(&mut c, &t.at(i), 40, 210);
            c
        },
    ));
    f.push(listed("scenes", "symbols, noise, finder-like shapes; every way to hand in the image", scenes(thorough), |s| {
        let mut c = Case::new();
        same_everywhere(&mut c, &scene(s), 0, 255);
        c
    }));
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for d in 0..8 {
            v.push((ver, d));
        }
    }
    f.push(listed("symbols", "versions 1-40, 8 orientations, uneven margins", v, |&(ver, d)| {
        let (_s, m) = clean(ver, ver % 4, ver % 8, 0, 0);
        let mut c = Case::new();
        same_everywhere(&mut c, &render(&m.dihedral(d), 2, 4 + 3 * d, 4, 9, 2 + d), 30, 200);
        c
    }));
    let mut v = Vec::new();
    for n in [255usize, 256, 257, 1000, 2049, 4095, 4096, 4097, 5000, 8200, 16400, 32800, 65535, 65536, 65537, 70000] {
        for o in 1..=3usize {
            for k in 0..3u64 {
                v.push((n, o, k, false));
                v.push((n, o, k, true));
            }
        }
    }
    f.push(listed("long images", "images 255 to 70000 pixels wide (or high) and 1 to 3 pixels the other way, numbered patterns", v, |&(n, o, k, t)| {
        let mut img = if t { Img::new(o, n) } else { Img::new(n, o) };
        for y in 0..img.h {
            for x in 0..img.w {
                let v = match k {
                    0 => mix2(n as u64, (y * img.w + x) as u64) % 2 == 0,
                    1 => (x + y) % 1021 < 300,
                    _ => mix2(7, ((x / 9) * 70001 + y / 9) as u64) % 3 == 0,
                };
                img.set(x, y, v);
            }
        }
        let mut c = Case::new();
        same_everywhere(&mut c, &img, 20, 220);
        c
    }));
    // luminance values: all single pixels next to all
    f.push(Family::new(
        "luminance",
        256 * 256,
        "all pairs of luminance values on a 2 x 1, 1 x 2 and 3 x 2 image",
        |i| format!("{} {}", i % 256, i / 256),
        |i| {
            let (a, b) = ((i % 256) as u8, (i / 256) as u8);
            let mut c = Case::new();
            c.state(i);
            for (w, h) in [(2, 1), (1, 2), (3, 2)] {
                let lum = |x: usize, y: usize| if (x + y) % 2 == 0 { a } else { b };
                c.calls += 3;
                let p = dossier!(PreparedImage::prepare_from_greyscale(w, h, lum));
                let q = dossier!(PreparedImage::prepare(Strict::new(w, h, lum)));
                if p != q {
                    c.fail(format!("{w} x {h}: function and buffer differ: {:?} {:?}", p.1, q.1));
                }
                if p.1.iter().any(|&s| s > 1) {
                    c.fail(format!("{w} x {h}: a prepared image with shades {:?}", p.1));
                }
            }
            c
        },
    ));
    // without_preparation accepts black and white only
    f.push(Family::new(
        "unprepared values",
        256 * 12,
        "one pixel with each of the 256 values at each place of a 4 x 3 image, the others 0 or 1",
        |i| format!("value {} at place {}", i % 256, i / 256),
        |i| {
            let (v, at) = ((i % 256) as u8, (i / 256) as usize);
            let mut c = Case::new();
            c.state(i);
            for other in [0u8, 1] {
                c.call();
                let buf = Strict::new(4, 3, |x, y| if y * 4 + x == at { v } else { other });
                let r = guard(|| {
                    let p = PreparedImage::without_preparation(buf);
                    shades!(p)
                });
                match r {
                    Ok(_) if v >= 2 => c.fail(format!("a pixel of value {v} is accepted as prepared")),
                    Ok(s) if s.iter().enumerate().any(|(k, &s)| s != if k == at { v } else { other }) => {
                        c.fail(format!("value {v} at {at}: shades {s:?}"))
                    }
                    Err(e) if v < 2 => c.fail(format!("a black and white image is rejected: {e}")),
                    _ => {}
                }
            }
            c
        },
    ));
    // points outside of the image read the nearest pixel
    let near: Vec<i64> = vec![i32::MIN as i64, i32::MIN as i64 + 1, -65536, -1000, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1000, 65536, i32::MAX as i64 - 1, i32::MAX as i64];
    let nn = near.len();
    let near2 = near.clone();
    f.push(Family::new(
        "points",
        (8 * 8 * nn * nn) as u64,
        "images of 1 to 8 by 1 to 8 pixels, points in and around them and at the ends of the number range: the nearest pixel",
        move |i| {
            let mut x = Ix(i);
            format!("{} x {} at ({}, {})", 1 + x.take(8), 1 + x.take(8), near2[x.take(nn)], near2[x.take(nn)])
        },
        move |i| {
            let mut x = Ix(i);
            let (w, h) = (1 + x.take(8), 1 + x.take(8));
            let (px, py) = (near[x.take(nn)], near[x.take(nn)]);
            let mut c = Case::new();
            c.state(i);
            let bit = |x: usize, y: usize| mix2(7, (y * 8 + x) as u64) & 1 == 1;
            for flip in [false, true] {
                c.calls += 2;
                let p = PreparedImage::prepare_from_bitmap(w, h, |x, y| bit(x, y) != flip);
                let (nx, ny) = (px.clamp(0, w as i64 - 1) as usize, py.clamp(0, h as i64 - 1) as usize);
                let got: u8 = p.get_pixel_at_point(Point { x: px as i32, y: py as i32 }).into();
                if got != (bit(nx, ny) != flip) as u8 {
                    c.fail(format!("the pixel at ({px}, {py}) of a {w} x {h} image has shade {got}"));
                }
            }
            c
        },
    ));
    // the picture written for inspection
    f.push(listed("written state", "scenes: the picture written for inspection is white exactly where the image is, black where it is untouched", scenes(false), |s| {
        let img = scene(s);
        let mut c = Case::new();
        c.state(img.hash());
        c.calls += 2;
        let mut p = bitmap!(&img);
        for round in 0..2 {
            let file = super::helpers::scratch(&format!("state-{}-{}-{round}.png", s.0, s.1));
            p.write_state_to(file.to_str().unwrap());
            let r = image::open(&file).map(|x| x.to_rgb8());
            let _ = std::fs::remove_file(&file);
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    c.fail(format!("no readable picture: {e}"));
                    return c;
                }
            };
            if (r.width() as usize, r.height() as usize) != (img.w, img.h) {
                c.fail(format!("the picture is {} x {}", r.width(), r.height()));
                return c;
            }
            let sh = shades!(p);
            for y in 0..img.h {
                for x in 0..img.w {
                    let px = r.get_pixel(x as u32, y as u32).0;
                    let s = sh[y * img.w + x];
                    if (px == [255; 3]) != (s == 0) || (px == [0; 3]) != (s == 1) {
                        c.fail(format!("shade {s} at ({x}, {y}) is written as {px:?}"));
                        return c;
                    }
                }
            }
            let _ = p.detect_grids().len();
        }
        c
    }));
    Property { id: "C18", assumptions: vec!["the ways to hand in an image are compared with each other; bitmaps also with the bits they were made from".into()], families: f }
}
