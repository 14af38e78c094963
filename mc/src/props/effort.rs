//! C27 a search takes reads, copies and memory in proportion to the image.

use super::bad::{spoil, HOW};
use super::detect::put_finder;
use crate::canvas::*;
use crate::engine::*;
use crate::qr::*;
use crate::util::*;
use image::{GenericImage, GenericImageView, Luma};
use rqrr::{BitGrid, Grid, PreparedImage};
use std::alloc::{GlobalAlloc, Layout as Mem, System};
use std::cell::Cell;
use std::rc::Rc;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Counts the memory held by each thread.
pub struct Tally;

fn held(by: i64) {
    let _ = HELD.try_with(|h| {
        let n = h.get() + by;
        h.set(n);
        let _ = PEAK.try_with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
}

unsafe impl GlobalAlloc for Tally {
    unsafe fn alloc(&self, l: Mem) -> *mut u8 {
        held(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Mem) -> *mut u8 {
        held(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Mem) {
        held(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Mem, n: usize) -> *mut u8 {
        held(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[derive(Default)]
struct Counts {
    reads: Cell<u64>,
    writes: Cell<u64>,
    copies: Cell<u64>,
}

/// An image that counts what is done to it and to its copies.
struct Meter {
    w: u32,
    h: u32,
    px: Vec<Luma<u8>>,
    n: Rc<Counts>,
}

impl Clone for Meter {
    fn clone(&self) -> Meter {
        self.n.copies.set(self.n.copies.get() + 1);
        Meter { w: self.w, h: self.h, px: self.px.clone(), n: self.n.clone() }
    }
}

impl GenericImageView for Meter {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
        self.n.reads.set(self.n.reads.get() + 1);
        self.px[(y * self.w + x) as usize]
    }
}

#[allow(deprecated)]
impl GenericImage for Meter {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Luma<u8> {
        &mut self.px[(y * self.w + x) as usize]
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        self.n.writes.set(self.n.writes.get() + 1);
        self.px[(y * self.w + x) as usize] = p;
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        self.put_pixel(x, y, p);
    }
}

#[derive(Debug)]
struct Effort {
    pixels: u64,
    grids: u64,
    reads: u64,
    writes: u64,
    copies: u64,
    /// bytes beyond those of the image
    peak: u64,
    /// reads and writes of the image for reading all the grids
    reading: u64,
}

fn effort(c: &mut Case, img: &Img) -> Effort {
    c.state(img.hash());
    let n = Rc::new(Counts::default());
    let px = img.px.iter().map(|&b| Luma([b as u8])).collect();
    let m = Meter { w: img.w as u32, h: img.h as u32, px, n: n.clone() };
    let mut p = PreparedImage::without_preparation(m);
    n.reads.set(0);
    c.calls += 2;
    let before = HELD.with(|h| h.get());
    PEAK.with(|p| p.set(before));
    let gs = p.detect_grids();
    let peak = PEAK.with(|p| p.get()) - before;
    let (reads, writes, copies) = (n.reads.get(), n.writes.get(), n.copies.get());
    for g in &gs {
        c.call();
        let (_, r) = dec_grid(g);
        c.out(if r.is_ok() { "grid read" } else { "grid not readable" });
    }
    let reading = n.reads.get() + n.writes.get() - reads - writes;
    Effort { pixels: img.px.len() as u64, grids: gs.len() as u64, reads, writes, copies, peak: peak.max(0) as u64, reading }
}

/// Reads that fitting one grid of version `v` may take: the modules its fit is
/// judged by, about 100 placements, 9 reads each; four times that.
fn fitting(v: usize) -> u64 {
    let a = align_pos(v).len() as u64;
    3600 * (3 * 49 + 2 * size(v) as u64 + 25 * a * a)
}

/// At most `per_px` reads and writes per pixel and `per_copy` for each group of
/// finder patterns tried, at most `copies` of them, memory for a few copies.
fn within(c: &mut Case, e: &Effort, per_px: u64, per_copy: u64, copies: u64, mem: u64) {
    let most = per_px * (e.pixels + 1000) + per_copy * (e.copies + e.grids);
    if e.reads + e.writes > most {
        c.fail(format!("{} reads and {} writes of pixels for an image of {} pixels with {} grids and {} groups tried, at most {most} in all expected", e.reads, e.writes, e.pixels, e.grids, e.copies));
    }
    if e.copies > copies {
        c.fail(format!("{} copies of the image are made, at most {copies} expected ({} grids)", e.copies, e.grids));
    }
    let most = mem * (e.pixels + 25_000);
    if e.peak > most {
        c.fail(format!("{} bytes of memory for an image of {} pixels, at most {most} expected", e.peak, e.pixels));
    }
    // a cell is one pixel, asked for by decoding a few times
    let most = e.grids * 8 * 177 * 177;
    if e.reading > most {
        c.fail(format!("{} reads and writes of pixels to read {} grids, at most {most} expected", e.reading, e.grids));
    }
}

const PATTERNS: [&str; 16] = [
    "dark", "white", "chequered", "columns", "rows", "spiral", "comb", "comb sideways", "rings", "noise", "coarse noise", "serpentine",
    "crosses", "ladder", "diagonals", "lattice",
];

fn pattern(kind: usize, w: usize, h: usize) -> Img {
    let mut img = Img::new(w, h);
    for y in 0..h {
        for x in 0..w {
            let ring = x.min(y).min(w - 1 - x).min(h - 1 - y);
            img.set(x, y, match kind {
                0 => true,
                1 => false,
                2 => (x + y) % 2 == 0,
                3 => x % 2 == 0,
                4 => y % 2 == 0,
                // rings with a slit that leads to the next one
                5 => ring % 2 == 0 && !(x == ring && y == ring + 1) || ring % 2 == 1 && x == ring && y == ring + 1,
                6 => x % 2 == 0 || y == h - 1,
                7 => y % 2 == 0 || x == w - 1,
                8 => ring % 2 == 0,
                9 => mix2(77, (y * 100_000 + x) as u64) % 2 == 0,
                10 => mix2(78, (y / 3 * 100_000 + x / 3) as u64) % 100 < 45,
                11 => y % 2 == 0 || x == if y % 4 == 1 { w - 1 } else { 0 },
                12 => x % 7 == 3 || y % 7 == 3,
                13 => x % 12 == 0 || x % 12 == 6 || matches!(x % 12, 2..=4) || y % 9 == 0,
                14 => (x + y) % 5 < 2,
                _ => x % 3 == 0 || y % 3 == 0,
            });
        }
    }
    img
}

/// A sheet of `nx` x `ny` symbols.
fn sheet(v: usize, px: usize, nx: usize, ny: usize, bad: Option<usize>) -> Img {
    let n = 17 + 4 * v;
    let step = (n + 8) * px;
    let mut img = Img::new(nx * step + 4, ny * step + 4);
    for k in 0..nx * ny {
        let (_s, mut m) = clean(v, k % 4, k / 4 % 8, 0, k as u64 % 7);
        if let Some(b) = bad {
            if k % 2 == 0 {
                spoil(&mut m, v, b, k as u64);
            }
        }
        img.blit(&m, px, k % nx * step + 4 * px, k / nx * step + 4 * px);
    }
    img
}

struct Asked<'a>(&'a Modules, Cell<u64>);
impl BitGrid for Asked<'_> {
    fn size(&self) -> usize {
        self.0.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        self.1.set(self.1.get() + 1);
        self.0.get(y, x)
    }
}

pub fn c27(thorough: bool) -> Property {
    let mut f = Vec::new();
    // patterns of growing size
    let sides: &[usize] = if thorough { &[20, 50, 100, 200, 400, 800, 1600, 2400] } else { &[20, 50, 100, 200, 400, 800] };
    let mut v = Vec::new();
    for k in 0..PATTERNS.len() {
        for &s in sides {
            for (w, h) in [(s, s), (2 * s, s / 2), (s / 4, 4 * s), (s * s / 5, 5), (5, s * s / 5)] {
                for cut in 0..3 {
                    v.push((k, w, h, cut));
                }
            }
        }
    }
    for s in [1300, 1600, 2000, 2400] {
        for k in [9, 10] {
            v.push((k, s, s, 0));
        }
    }
    f.push(listed("patterns", format!("{PATTERNS:?}, sides {sides:?}, square, oblong and very long, noise up to 2400 x 2400, plain or with a cut through a finder pattern growing out of them at the top or in the middle"), v, |&(k, w, h, cut)| {
        let mut img = pattern(k, w, h);
        if cut > 0 && w > 20 && h > 4 {
            // all of it is one zone where it can be: its fringe makes it counted
            let y = if cut == 1 { 0 } else { h / 2 };
            let x = if cut == 1 { 0 } else { w / 2 - 10 };
            img.rect(x, y, 20, 3, false);
            for (x, w) in [(x + 6, 1), (x + 8, 3), (x + 12, 1)] {
                img.rect(x, y, w, 3, true);
            }
            img.rect(x + 6, y + 2, 7, 1, true);
        }
        let mut c = Case::new();
        let e = effort(&mut c, &img);
        // the fill keeps places to go on at, many of them only in zones full of holes
        let groups = if matches!(k, 9 | 10) { e.pixels / 10_000 } else { 0 };
        within(&mut c, &e, 20, fitting(7), groups, if matches!(k, 9 | 10 | 12 | 13 | 14 | 15) { 20 } else { 4 });
        c
    }));
    // one symbol
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for px in if thorough { vec![1, 2, 3, 4, 6, 8, 12, 16] } else { vec![1, 2, 3, 5, 8] } {
            for d in if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![0, 6] } {
                v.push((ver, px, d));
            }
        }
    }
    f.push(listed("one symbol", "versions 1-40, 1 to 8 (16) pixels per module, two (all) orientations", v, |&(ver, px, d)| {
        let (_s, m) = clean(ver, 1, 5, 0, 0);
        let img = render(&m.dihedral(d), px, 4 * px, 4 * px, 4 * px, 4 * px);
        let mut c = Case::new();
        let e = effort(&mut c, &img);
        within(&mut c, &e, 20, fitting(ver), 3, 12);
        c
    }));
    // sheets
    let mut v = Vec::new();
    for ver in [1usize, 2, 7] {
        for px in 2..=if thorough { 5 } else { 3 } {
            for n in 1..=if thorough { 24 } else { 12usize } {
                for ny in [1, n] {
                    if n * ny * (17 + 4 * ver) <= if thorough { 13000 } else { 4000 } {
                        v.push((ver, px, n, ny, None));
                        for b in 0..HOW.len() {
                            if (n + b + px) % 3 == 0 && n <= 12 {
                                v.push((ver, px, n, ny, Some(b)));
                            }
                        }
                    }
                }
            }
        }
    }
    for n in if thorough { vec![16, 20, 24, 28, 32, 36, 40] } else { vec![16, 20] } {
        v.push((1, 2, n, n, None));
    }
    f.push(listed("sheets", "rows and squares of up to 400 (1600) symbols, all good or every other one spoilt", v, |&(ver, px, nx, ny, bad): &(usize, usize, usize, usize, Option<usize>)| {
        let mut c = Case::new();
        let e = effort(&mut c, &sheet(ver, px, nx, ny, bad));
        let n = (nx * ny) as u64;
        within(&mut c, &e, 20, fitting(ver), if bad.is_none() { 3 * n + 5 } else { 2 * n * n + 20 }, 12);
        c
    }));
    // arrays of finder patterns
    let mut v = Vec::new();
    for px in 1..=2 {
        for gap in 8..20 {
            for nx in 1..=8 {
                for ny in [1, 2, nx] {
                    v.push((px, gap, nx, ny));
                }
            }
        }
    }
    f.push(listed("finder patterns", "rows and squares of up to 64 finder patterns, 8 to 19 modules apart", v, |&(px, gap, nx, ny)| {
        let mut img = Img::new((nx * gap + 2) * px, (ny * gap + 2) * px);
        for k in 0..nx * ny {
            put_finder(&mut img, px, (1 + k % nx * gap) * px, (1 + k / nx * gap) * px);
        }
        let mut c = Case::new();
        let e = effort(&mut c, &img);
        let n = (nx * ny) as u64;
        within(&mut c, &e, 20, fitting(7), n * n + 20, 12);
        c
    }));
    // more zones than shades: the cost may grow with the rows, not faster
    let mut v = Vec::new();
    for kind in 0..3 {
        for groups in [10, 80, 90, 130, 260, 300] {
            for h in [5, 20, 60, 150] {
                v.push((kind, groups, h));
            }
        }
    }
    f.push(listed("more zones than shades", "bars in the proportions of finder patterns, 10 to 300 groups in each of 5 to 150 rows", v, |&(kind, groups, h)| {
        let (w, h): (usize, usize) = (groups * 12 + 4, h);
        let mut img = Img::new(w, h);
        for y in 0..h {
            for x in 0..w {
                let bar = x % 12 == 0 || x % 12 == 6 || matches!(x % 12, 2..=4);
                img.set(x, y, match kind {
                    0 => bar,
                    1 => bar && !(matches!(x % 12, 2..=4) && y + 1 == h) || y + 1 == h && x % 12 < 7,
                    _ => bar && y > 1 && y + 3 < h || y + 1 == h && x % 12 < 7,
                });
            }
        }
        let mut c = Case::new();
        let e = effort(&mut c, &img);
        within(&mut c, &e, 20 * if groups * 3 > 250 { h as u64 } else { 1 }, fitting(7), 10, 12);
        c
    }));
    // preparing
    let mut v = Vec::new();
    for w in [0usize, 1, 2, 7, 8, 9, 63, 200, 1000, 5000] {
        for h in [0usize, 1, 2, 3, 50, 333] {
            for k in 0..PATTERNS.len() {
                v.push((w, h, k));
            }
        }
    }
    f.push(listed("preparing", "images of 10 widths and 6 heights", v, |&(w, h, k)| {
        let img = if w * h == 0 { Img::new(w, h) } else { pattern(k, w, h) };
        let mut c = Case::new();
        c.state(img.hash());
        let n = Rc::new(Counts::default());
        let px = img.px.iter().map(|&b| Luma([if b { 30 } else { 220 }])).collect();
        let m = Meter { w: w as u32, h: h as u32, px, n: n.clone() };
        let before = HELD.with(|h| h.get());
        PEAK.with(|p| p.set(before));
        c.call();
        let _p = PreparedImage::prepare(m);
        let peak = PEAK.with(|p| p.get()) - before;
        let (work, most) = (n.reads.get() + n.writes.get(), 10 * (w * h) as u64 + 100);
        if work > most {
            c.fail(format!("{work} reads and writes of pixels to prepare {w} x {h}, at most {most} expected"));
        }
        let most = 8 * (w * h) as i64 + 64 * w as i64 + 100_000;
        if n.copies.get() > 1 || peak > most {
            c.fail(format!("{} copies and {peak} bytes of memory to prepare {w} x {h}, at most {most} expected", n.copies.get()));
        }
        c
    }));
    // cells asked for by decoding
    let mut v = Vec::new();
    for ver in 1..=40usize {
        for lvl in 0..4usize {
            for how in 0..6usize {
                v.push((ver, lvl, how));
            }
        }
    }
    f.push(listed("cells asked for", "versions 1-40, levels, good, mirrored, spoilt, blank, dark and noisy", v, |&(ver, lvl, how)| {
        let s = Symbol::full(ver, lvl, (ver + how) % 8, 2, 5);
        let mut m = s.modules();
        match how {
            0 => {}
            1 => m = m.transpose(),
            2 => spoil(&mut m, ver, 5, 3),
            3 => m = Modules::new(m.n),
            4 => m.m.iter_mut().for_each(|p| *p = true),
            _ => m.m.iter_mut().enumerate().for_each(|(i, p)| *p = mix2(9, i as u64) % 2 == 0),
        }
        let mut c = Case::new();
        c.state(hash_bools(m.n as u64, &m.m));
        let g = Grid::new(Asked(&m, Cell::new(0)));
        let _ = g.decode();
        let a = g.grid.1.replace(0);
        let _ = g.get_raw_data();
        let b = g.grid.1.get();
        c.calls += 2;
        let cells = (m.n * m.n) as u64;
        if a > 4 * cells + 200 {
            c.fail(format!("decoding asks for cells {a} times, there are {cells}"));
        }
        if b > 2 * cells + 200 {
            c.fail(format!("getting the raw data asks for cells {b} times, there are {cells}"));
        }
        c
    }));
    Property { id: "C27", assumptions: vec!["effort is counted in pixels read and written, copies of the image and bytes held, not in time".into(), "with more than about 250 zones that look like cuts through finder patterns in a row, the effort may grow with the number of rows".into()], families: f }
}
