//! C21: small public helpers.

use crate::engine::*;
use crate::qr::*;
use crate::util::*;
use rqrr::{BitGrid, DeQRError, Grid, RawData, SimpleGrid, Version, MAX_PAYLOAD_SIZE};

pub fn c21(thorough: bool) -> Property {
    let mut f = Vec::new();
    let sizes: Vec<usize> =
        (0..=4096).chain([65535, 65536, 1 << 31, 1 << 32, (1 << 32) + 21, usize::MAX - 20, usize::MAX - 1, usize::MAX]).collect();
    let s2 = sizes.clone();
    f.push(Family::new(
        "version of a size",
        sizes.len() as u64,
        "all sides 0..=4096 and extremes",
        move |i| format!("side {}", s2[i as usize]),
        move |i| {
            let n = sizes[i as usize];
            let mut c = Case::new();
            c.call();
            c.state(n as u64);
            let r = Version::from_size(n);
            if !(21..=180).contains(&n) {
                c.out("invalid");
                if r != Err(DeQRError::InvalidVersion) {
                    c.fail(format!("from_size({n}) = {r:?}"));
                }
            } else if n <= 177 && (n - 17) % 4 == 0 {
                let v = (n - 17) / 4;
                if r != Ok(Version(v)) || Version(v).to_size() != n {
                    c.fail(format!("from_size({n}) = {r:?}, to_size of version {v} = {}", Version(v).to_size()));
                }
            } else {
                c.out("between");
            }
            c
        },
    ));
    // SimpleGrid: all tiny squares, binary numbering of larger ones
    f.push(Family::new(
        "tiny squares",
        1 + 2 + 16 + 512 + 65536,
        "all squares of side 0..=4",
        |i| format!("square #{i}"),
        |i| {
            let (n, p) = match i {
                0 => (0, 0),
                1..=2 => (1, i - 1),
                3..=18 => (2, i - 3),
                19..=530 => (3, i - 19),
                _ => (4, i - 531),
            };
            let mut c = Case::new();
            c.state(hash_u64s(&[n as u64, p]));
            c.call();
            let g = SimpleGrid::from_func(n, |x, y| (p >> (y * n + x)) & 1 == 1);
            if g.size() != n {
                c.fail(format!("size {} of a square of side {n}", g.size()));
            }
            for y in 0..n {
                for x in 0..n {
                    if g.bit(y, x) != ((p >> (y * n + x)) & 1 == 1) {
                        c.fail(format!("side {n} pattern {p:b}: cell ({y},{x}) is {}", g.bit(y, x)));
                    }
                }
            }
            c
        },
    ));
    let sides: Vec<usize> = if thorough {
        (1..=520).chain([700, 724, 725, 1000, 1023, 1024, 1025]).collect()
    } else {
        (1..=181).chain([182, 185, 200, 255, 256, 257, 300, 361, 362, 363, 400, 511, 512, 513, 1000, 1024]).collect()
    };
    let s3 = sides.clone();
    f.push(Family::new(
        "square cells",
        sides.len() as u64 * 22,
        format!("{} sides from 1 to {} x 22 patterns that number every cell in binary; size, every cell, every cell of a clone", sides.len(), sides.last().unwrap()),
        move |i| format!("side {} pattern bit {}", s3[(i / 22) as usize], i % 22),
        move |i| {
            let n = sides[(i / 22) as usize];
            let k = i % 22;
            let pat = |x: usize, y: usize| ((y * n + x) >> k) & 1 == (k == 21) as usize;
            let mut c = Case::new();
            c.call();
            c.state(i);
            let g = SimpleGrid::from_func(n, pat);
            let h = Grid::new(g.clone());
            if g.size() != n || h.grid.size() != n {
                c.fail(format!("sizes {} and {} of a square of side {n}", g.size(), h.grid.size()));
                return c;
            }
            for b in h.bounds {
                if b.x != 0 || b.y != 0 {
                    c.fail(format!("bounds {:?}", h.bounds));
                }
            }
            for y in 0..n {
                for x in 0..n {
                    if g.bit(y, x) != pat(x, y) || h.grid.bit(y, x) != pat(x, y) {
                        c.fail(format!("side {n}: cell ({y},{x}) is {}", g.bit(y, x)));
                        return c;
                    }
                }
            }
            c
        },
    ));
    // a symbol copied into a SimpleGrid decodes like the original
    f.push(Family::new(
        "copied symbols",
        1280,
        "all 1280 configurations: a SimpleGrid copy decodes to the content",
        |i| format!("configuration {i}"),
        |i| {
            let mut x = Ix(i);
            let s = Symbol::full(40 - x.take(40), x.take(4), x.take(8), 0, i);
            let m = s.modules();
            let mut c = Case::new();
            c.state(hash_bools(9, &m.m));
            c.calls += 2;
            let g = SimpleGrid::from_func(m.n, |x, y| m.get(y, x));
            let (out, r) = dec_grid(&Grid::new(g));
            if r != Ok(s.meta()) || out != s.out {
                c.fail(format!("{r:?} {}", hex(&out)));
            }
            c
        },
    ));
    // RawData::push
    let npush: u64 = 1 << 14;
    f.push(Family::new(
        "bit stream",
        npush + 64,
        "all bit strings of length 14 pushed behind 0..=7 bits, and streams filled to the last bit",
        |i| format!("string #{i}"),
        move |i| {
            let mut c = Case::new();
            c.state(i);
            let mut r = RawData { data: [0; MAX_PAYLOAD_SIZE], len: 0 };
            let bits: Vec<bool> = if i < npush {
                (0..14 + i % 8).map(|k| if k < 14 { (i >> k) & 1 == 1 } else { k % 2 == 0 }).collect()
            } else {
                (0..(MAX_PAYLOAD_SIZE * 8) as u64).map(|k| mix2(i, k) & 1 == 1).collect()
            };
            for &b in &bits {
                r.push(b);
            }
            c.calls += bits.len() as u64;
            if r.len != bits.len() {
                c.fail(format!("length {} after {} bits", r.len, bits.len()));
            }
            let want = pack(&Bits(bits));
            if r.data[..want.len()] != want[..] || r.data[want.len()..].iter().any(|&x| x != 0) {
                c.fail("the stream does not hold the bits in order".into());
            }
            c
        },
    ));
    // images written for inspection
    f.push(Family::new(
        "grid images",
        40 + 300,
        "all 40 versions and numbered patterns of every side from 1 to 300: the image written for a grid shows exactly its modules",
        |i| if i < 40 { format!("version {}", i + 1) } else { format!("side {}", i - 39) },
        |i| {
            let m = if i < 40 {
                super::symbol::base_symbol(i as usize + 1).clone()
            } else {
                let n = i as usize - 39;
                let mut m = Modules::new(n);
                for k in 0..n * n {
                    m.set(k / n, k % n, mix2(i, k as u64) & 1 == 1);
                }
                m
            };
            let mut c = Case::new();
            c.state(i);
            c.call();
            let p = scratch(&format!("grid{i}.png"));
            MGrid(&m).write_grid_to(p.to_str().unwrap());
            let img = image::open(&p).map(|x| x.to_luma8());
            let _ = std::fs::remove_file(&p);
            match img {
                Ok(img) => {
                    if (img.width() as usize, img.height() as usize) != (m.n, m.n) {
                        c.fail(format!("image is {}x{}", img.width(), img.height()));
                        return c;
                    }
                    for y in 0..m.n {
                        for x in 0..m.n {
                            let px = img.get_pixel(x as u32, y as u32).0[0];
                            if px != [255, 0][m.get(y, x) as usize] {
                                c.fail(format!("pixel ({x},{y}) is {px}"));
                                return c;
                            }
                        }
                    }
                }
                Err(e) => c.fail(format!("no readable image: {e}")),
            }
            c
        },
    ));
    Property { id: "C21", assumptions: vec!["sides between 21 and 180 that are not 17+4v may map to any version".into()], families: f }
}

pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("work");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{name}", std::process::id()))
}
