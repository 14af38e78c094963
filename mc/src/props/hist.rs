//! C28 calls do not influence each other, in whatever order, nesting or thread
//! they happen.  The caller's own grid, image, fill function and writer are the
//! scheduling points: at each of them another call may come in between.

use super::bad::spoil;
use super::image::many;
use crate::canvas::*;
use crate::engine::*;
use crate::model::*;
use crate::qr::*;
use crate::util::*;
use crate::{search, shades};
use image::{GenericImage, GenericImageView, Luma};
use rqrr::{BitGrid, DeQRError, Grid, PreparedImage};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::Write;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::OnceLock;
use std::time::Duration;

// ------------------------------------------------------- scheduling points

type Hook = Box<dyn FnOnce()>;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOKS: RefCell<VecDeque<Hook>> = const { RefCell::new(VecDeque::new()) };
}

/// The crate called the caller's code.
fn tick() {
    let n = COUNT.get() + 1;
    COUNT.set(n);
    if n != NEXT.get() {
        return;
    }
    let h = HOOKS.with(|h| h.borrow_mut().pop_front());
    NEXT.set(u64::MAX);
    if let Some(f) = h {
        f();
        COUNT.set(n);
    }
}

/// Do `f` at the k-th call of this thread.
fn at(k: u64, f: impl FnOnce() + 'static) {
    NEXT.set(k);
    HOOKS.with(|h| h.borrow_mut().push_back(Box::new(f)));
}

struct Cells(&'static Modules);
impl BitGrid for Cells {
    fn size(&self) -> usize {
        self.0.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        tick();
        y < self.0.n && x < self.0.n && self.0.get(y, x)
    }
}

#[derive(Clone)]
struct Sheet {
    w: u32,
    h: u32,
    px: Vec<Luma<u8>>,
}
impl GenericImageView for Sheet {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
        tick();
        self.px[(y * self.w + x) as usize]
    }
}
#[allow(deprecated)]
impl GenericImage for Sheet {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut Luma<u8> {
        tick();
        &mut self.px[(y * self.w + x) as usize]
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        tick();
        self.px[(y * self.w + x) as usize] = p;
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) {
        self.put_pixel(x, y, p);
    }
}

struct Sink(Vec<u8>);
impl Write for &mut Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        tick();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        tick();
        Ok(())
    }
}

// ------------------------------------------------------------------- jobs

enum What {
    /// a grid of the caller, and what the model makes of it
    /// (None for a square no symbol has)
    Cells(Modules, Option<Expect>),
    /// an image, bits or shades, and the symbols drawn in it
    Image { w: usize, h: usize, px: Vec<u8>, grey: bool, drawn: Vec<Symbol> },
}

struct Job {
    name: &'static str,
    what: What,
}

fn cells(name: &'static str, m: Modules) -> Job {
    let standard = (21..=177).contains(&m.n) && m.n % 4 == 1;
    let e = if standard { Some(ref_decode(&m)) } else { None };
    Job { name, what: What::Cells(m, e) }
}

fn image(name: &'static str, img: Img, drawn: Vec<Symbol>) -> Job {
    Job { name, what: What::Image { w: img.w, h: img.h, px: img.px.iter().map(|&b| b as u8).collect(), grey: false, drawn } }
}

/// Wrong codewords, `per` in each block.
fn hurt(s: &Symbol, per: usize) -> Modules {
    let mut b = s.blocks.clone();
    for (k, b) in b.iter_mut().enumerate() {
        for i in 0..per {
            let at = (7 * i + k) % b.len();
            b[at] ^= 0x35 + i as u8;
        }
    }
    s.modules_of(&b)
}

const FIRST_IMAGE: usize = 15;

/// The jobs; those before FIRST_IMAGE decode a grid, the others search.
fn jobs() -> &'static [Job] {
    static J: OnceLock<Vec<Job>> = OnceLock::new();
    J.get_or_init(|| {
        let full = |v, lvl, mask, kind, seed| Symbol::full(v, lvl, mask, kind, seed);
        let mut v = Vec::new();
        v.push(cells("version 1, text", full(1, 1, 2, 1, 1).modules()));
        v.push(cells("version 1, digits", full(1, 1, 2, 2, 2).modules()));
        v.push(cells("version 1 H, kanji", full(1, 2, 5, 3, 3).modules()));
        v.push(cells("version 2, mirrored", full(2, 0, 6, 1, 4).modules().transpose()));
        let s = full(3, 3, 0, 1, 5);
        v.push(cells("version 3, damaged to the limit", hurt(&s, blk(3, 3).blocks[0].t())));
        let s = full(1, 1, 1, 1, 6);
        v.push(cells("version 1, not correctable", hurt(&s, 5)));
        let mut m = full(2, 1, 3, 1, 7).modules();
        // as far from every format as it can be
        for copy in 0..2 {
            put_format(&mut m, copy, super::symbol::undecodable()[0]);
        }
        v.push(cells("version 2, no format", m));
        v.push(cells("22 x 22", Modules::new(22)));
        v.push(cells("181 x 181", Modules::new(181)));
        v.push(cells("version 1, not text", Symbol::from_segs(1, 1, 4, &[Seg::Byte(vec![0xff, 0xfe, 0x41])]).modules()));
        // a byte segment of more bytes than there are
        let mut b = Bits::default();
        b.push(4, 4);
        b.push(200, 8);
        for k in 0..10 {
            b.push(0x41 + k, 8);
        }
        let s = Symbol::from_data(1, 1, 7, &finish(b, blk(1, 1).data_total), vec![]);
        v.push(cells("version 1, cut off", s.modules()));
        let s = full(7, 1, 5, 1, 8);
        v.push(cells("version 7, damaged", hurt(&s, 3)));
        let s = full(5, 3, 7, 0, 9);
        v.push(cells("version 5 Q, blocks of two lengths, damaged", hurt(&s, 2)));
        let segs = [Seg::Byte(b"ab".to_vec()), Seg::Eci(26), Seg::Num(b"12345".to_vec()), Seg::Alnum(b"X:Y".to_vec())];
        v.push(cells("version 1, four segments", Symbol::from_segs(1, 1, 0, &segs).modules()));
        let mut b = Bits::default();
        b.push(1, 4);
        b.push(4, 10);
        b.push(123, 10);
        b.push(4, 4);
        b.push(9, 4);
        let s = Symbol::from_data(1, 1, 3, &finish(b, blk(1, 1).data_total), vec![]);
        v.push(cells("version 1, unknown segment", s.modules()));
        assert_eq!(v.len(), FIRST_IMAGE);

        let one = |ver, lvl, px, d, q: usize| {
            let (s, m) = clean(ver, lvl, 5, 1, 0);
            (render(&m.dihedral(d), px, q, q, q, q), s)
        };
        let (i, s) = one(1, 1, 1, 0, 4);
        v.push(image("image, version 1", i, vec![s]));
        let (i, s) = one(2, 2, 1, 6, 3);
        v.push(image("image, version 2, mirrored and turned", i, vec![s]));
        v.push(image("image, nothing", Img::new(12, 9), vec![]));
        let mut i = Img::new(30, 20);
        for x in 0..5 {
            i.rect(6 * x, 2 * x, 3, 3, true);
        }
        super::detect::put_finder(&mut i, 1, 20, 10);
        v.push(image("image, specks and one finder pattern", i, vec![]));
        let (_, mut m) = clean(1, 0, 3, 1, 0);
        spoil(&mut m, 1, 8, 3);
        v.push(image("image, not readable", render(&m, 1, 4, 4, 4, 4), vec![]));
        let (i, s) = one(1, 3, 2, 3, 8);
        v.push(Job {
            name: "grey image",
            what: What::Image {
                w: i.w,
                h: i.h,
                px: (0..i.px.len()).map(|k| if i.px[k] { 20 + (k % i.w / 2) as u8 } else { 180 + (k / i.w / 2) as u8 }).collect(),
                grey: true,
                drawn: vec![s],
            },
        });
        let (a, s) = clean(1, 1, 5, 1, 0);
        let (t, b) = clean(1, 2, 4, 1, 2);
        let mut i = Img::new(62, 29);
        i.blit(&s, 1, 4, 4);
        i.blit(&b.dihedral(2), 1, 37, 4);
        v.push(image("image, two symbols", i, vec![a, t]));
        v.push(image("image, 260 zones", many(260, 16, 0), vec![clean(1, 1, 5, 0, 0).0]));
        let (i, s) = one(9, 1, 2, 0, 8);
        v.push(image("image, version 9", i, vec![s]));
        v
    })
}

#[derive(PartialEq, Debug)]
enum Saw {
    Raw(Result<(Meta, usize, Vec<u8>), DeQRError>),
    Read(Vec<u8>, Result<Meta, DeQRError>),
    Text(Result<(Meta, String), DeQRError>),
    Zones(u64),
    Grids(Vec<Found>),
}

/// A job that has been begun, done in three steps.
struct Running {
    job: &'static Job,
    img: Option<*mut PreparedImage<Sheet>>,
    grids: Vec<Box<dyn Fn() -> (Found, Saw)>>,
    saw: Vec<Saw>,
}

const STEPS: usize = 3;

impl Running {
    fn new(j: usize) -> Running {
        COUNT.set(0);
        Running { job: &jobs()[j], img: None, grids: Vec::new(), saw: Vec::new() }
    }
    fn step(&mut self, k: usize) {
        match (&self.job.what, k) {
            (What::Cells(..), 0) => {}
            (What::Cells(m, _), 1) => {
                let r = Grid::new(Cells(m)).get_raw_data();
                self.saw.push(Saw::Raw(r.map(|(a, r)| (a.into(), r.len, r.data[..r.len.div_ceil(8)].to_vec()))));
            }
            (What::Cells(m, _), _) => {
                let g = Grid::new(Cells(m));
                let mut s = Sink(Vec::new());
                let r = g.decode_to(&mut s);
                self.saw.push(Saw::Read(s.0, r.map(Meta::from)));
                self.saw.push(Saw::Text(g.decode().map(|(a, b)| (a.into(), b))));
            }
            (What::Image { w, h, px, grey, .. }, 0) => {
                let s = Sheet { w: *w as u32, h: *h as u32, px: px.iter().map(|&b| Luma([b])).collect() };
                let p = if *grey { PreparedImage::prepare(s) } else { PreparedImage::without_preparation(s) };
                self.saw.push(Saw::Zones(hash_bytes(0, &shades!(p))));
                self.img = Some(Box::into_raw(Box::new(p)));
            }
            (What::Image { .. }, 1) => {
                // given back in drop(), after the grids
                let p: &'static mut PreparedImage<Sheet> = unsafe { &mut *self.img.unwrap() };
                for g in p.detect_grids() {
                    self.grids.push(Box::new(move || {
                        let mut s = Sink(Vec::new());
                        let res = g.decode_to(&mut s).map(Meta::from);
                        let f = Found { bounds: g.bounds.map(|p| (p.x, p.y)), mods: grid_modules(&g.grid), out: s.0, res };
                        (f, Saw::Text(g.decode().map(|(a, b)| (a.into(), b))))
                    }));
                }
            }
            (What::Image { .. }, _) => {
                let (f, t): (Vec<Found>, Vec<Saw>) = self.grids.iter().map(|g| g()).unzip();
                self.saw.push(Saw::Grids(f));
                self.saw.extend(t);
            }
        }
    }
    fn all(mut self) -> Vec<Saw> {
        for k in 0..STEPS {
            self.step(k);
        }
        std::mem::take(&mut self.saw)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        self.grids.clear();
        if let Some(p) = self.img.take() {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

/// Run on a thread of its own; something that never returns is a failure.
fn aside<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let (tx, rx) = channel();
    std::thread::spawn(move || tx.send(guard(f)));
    answer(&rx)
}

fn answer<T>(rx: &Receiver<Result<T, String>>) -> Result<T, String> {
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => r.map_err(|e| format!("panicked at {e}")),
        Err(RecvTimeoutError::Timeout) => Err("does not return".into()),
        Err(RecvTimeoutError::Disconnected) => Err("thread gone".into()),
    }
}

/// What a job sees alone, and how often it calls back.
fn alone(j: usize) -> &'static Result<(Vec<Saw>, u64), String> {
    static A: OnceLock<Vec<OnceLock<Result<(Vec<Saw>, u64), String>>>> = OnceLock::new();
    A.get_or_init(|| (0..jobs().len()).map(|_| OnceLock::new()).collect())[j].get_or_init(|| {
        aside(move || {
            let s = Running::new(j).all();
            (s, COUNT.get())
        })
    })
}

fn calls(j: usize) -> u64 {
    alone(j).as_ref().map_or(0, |a| a.1)
}

/// What was seen must be what the job sees alone.
fn same(c: &mut Case, j: usize, saw: Result<Vec<Saw>, String>, when: impl Fn() -> String) {
    c.calls += STEPS as u64;
    let name = jobs()[j].name;
    match (saw, alone(j)) {
        (_, Err(e)) => c.fail(format!("{name}, alone: {e}")),
        (Err(e), _) => c.fail(format!("{name}, {}: {e}", when())),
        (Ok(s), Ok((a, _))) if s == *a => {}
        (Ok(s), Ok((a, _))) => {
            let k = (0..s.len().min(a.len())).find(|&k| s[k] != a[k]);
            let show = |s: &[Saw]| match k {
                Some(k) => format!("{:?}", s[k]).chars().take(300).collect::<String>(),
                None => format!("{} results", s.len()),
            };
            c.fail(format!("{name}, {}: {} instead of {} alone", when(), show(&s), show(a)))
        }
    }
}

/// All ways to arrange `n` jobs of STEPS steps each in turn.
fn turns(n: usize) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|&l| l == 0) {
            out.push(cur.clone());
        }
        for j in 0..left.len() {
            if left[j] > 0 {
                left[j] -= 1;
                cur.push(j as u8);
                go(left, cur, out);
                cur.pop();
                left[j] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut vec![STEPS; n], &mut Vec::new(), &mut out);
    out
}

/// The jobs of `who` step by step in the order `turn`.
fn in_turn(who: &[usize], turn: &[u8], threads: bool) -> Vec<Result<Vec<Saw>, String>> {
    let n = who.len();
    if !threads {
        let (who, turn) = (who.to_vec(), turn.to_vec());
        let r = aside(move || {
            let mut r: Vec<Running> = who.iter().map(|&j| Running::new(j)).collect();
            let mut k = vec![0; r.len()];
            for t in turn {
                let t = t as usize;
                r[t].step(k[t]);
                k[t] += 1;
            }
            r.iter_mut().map(|r| std::mem::take(&mut r.saw)).collect::<Vec<_>>()
        });
        return match r {
            Ok(v) => v.into_iter().map(Ok).collect(),
            Err(e) => (0..n).map(|_| Err(e.clone())).collect(),
        };
    }
    // every job on its own thread, told when it may go on
    let mut go: Vec<Sender<()>> = Vec::new();
    let mut back: Vec<Receiver<Result<(), String>>> = Vec::new();
    let mut end: Vec<Receiver<Vec<Saw>>> = Vec::new();
    for &j in who {
        let (tx, rx) = channel();
        let (btx, brx) = channel();
        let (etx, erx) = channel();
        go.push(tx);
        back.push(brx);
        end.push(erx);
        std::thread::spawn(move || {
            let mut r = Running::new(j);
            for k in 0..STEPS {
                if rx.recv().is_err() {
                    return;
                }
                let x = guard(|| r.step(k));
                let bad = x.is_err();
                let _ = btx.send(x);
                if bad {
                    return;
                }
            }
            let _ = etx.send(std::mem::take(&mut r.saw));
        });
    }
    let mut bad: Vec<Option<String>> = vec![None; n];
    for &t in turn {
        let t = t as usize;
        if bad[t].is_none() {
            let _ = go[t].send(());
            bad[t] = answer(&back[t]).err();
        }
    }
    (0..n)
        .map(|t| match bad[t].take() {
            Some(e) => Err(e),
            None => end[t].recv_timeout(Duration::from_secs(60)).map_err(|_| "does not return".into()),
        })
        .collect()
}

/// Job `a` is interrupted at its callback `k` by job `b` as a whole.
fn inside(c: &mut Case, a: usize, k: u64, b: usize, thread: bool) {
    let r = aside(move || {
        let (tx, rx) = channel();
        at(k, move || {
            let r = if thread { aside(move || Running::new(b).all()) } else { guard(|| Running::new(b).all()) };
            let _ = tx.send(r);
        });
        let s = Running::new(a).all();
        // the crate may have got by with fewer calls this time
        (s, rx.try_recv().ok())
    });
    let place = if thread { "on another thread" } else { "on the same thread" };
    match r {
        Err(e) => same(c, a, Err(e), || format!("interrupted at callback {k} by '{}' {place}", jobs()[b].name)),
        Ok((ra, rb)) => {
            same(c, a, Ok(ra), || format!("interrupted at callback {k} by '{}' {place}", jobs()[b].name));
            match rb {
                Some(rb) => same(c, b, rb, || format!("within callback {k} of '{}' {place}", jobs()[a].name)),
                None => c.out("not reached"),
            }
        }
    }
}

/// Job `a` up to its callback `k`, job `b` on another thread up to its callback
/// `l`, then `a` to the end, then `b`.
fn twice(c: &mut Case, a: usize, k: u64, b: usize, l: u64) {
    let (btx, brx) = channel::<Result<Vec<Saw>, String>>();
    let (gtx, grx) = channel::<()>();
    let r = aside(move || {
        at(k, move || {
            let (stx, srx) = channel::<()>();
            std::thread::spawn(move || {
                let s2 = stx.clone();
                at(l, move || {
                    let _ = s2.send(());
                    let _ = grx.recv_timeout(Duration::from_secs(60));
                });
                let r = guard(|| Running::new(b).all());
                let _ = btx.send(r);
                drop(stx);
            });
            let _ = srx.recv_timeout(Duration::from_secs(60));
        });
        Running::new(a).all()
    });
    let _ = gtx.send(());
    let rb = match brx.recv_timeout(Duration::from_secs(60)) {
        // never begun
        Err(RecvTimeoutError::Disconnected) => {
            c.out("not reached");
            return;
        }
        Ok(r) => r,
        Err(_) => Err("does not return".into()),
    };
    same(c, a, r, || format!("stopped at callback {k} while '{}' began up to its callback {l}", jobs()[b].name));
    same(c, b, rb, || format!("begun at callback {k} of '{}', stopped at {l} until that was done", jobs()[a].name));
}

/// Job `a` is broken off by a panic of the caller's code at callback `k`; then
/// `b` runs on the same or another thread.
fn broken(c: &mut Case, a: usize, k: u64, b: usize, thread: bool) {
    let r = aside(move || {
        at(k, || panic!("broken off"));
        let off = guard(|| Running::new(a).all()).is_err();
        // true if not reached
        let off = off | HOOKS.with(|h| h.borrow_mut().pop_front().is_some());
        NEXT.set(u64::MAX);
        if thread {
            (off, aside(move || Running::new(b).all()))
        } else {
            (off, guard(|| Running::new(b).all()))
        }
    });
    match r {
        Err(e) => c.fail(e),
        Ok((off, rb)) => {
            if !off {
                c.fail(format!("the panic of callback {k} of '{}' was swallowed", jobs()[a].name));
            }
            same(c, b, rb, || format!("after '{}' was broken off at callback {k}", jobs()[a].name));
        }
    }
}

/// One callback of one job out of a list of jobs.
fn callbacks(who: &[usize], step: u64) -> Vec<(usize, u64)> {
    let mut v = Vec::new();
    for &a in who {
        let mut k = 1;
        while k <= calls(a) {
            v.push((a, k));
            k += step;
        }
    }
    v
}

fn names(who: &[usize]) -> String {
    who.iter().map(|&j| jobs()[j].name).collect::<Vec<_>>().join("; ")
}

pub fn c28(thorough: bool) -> Property {
    let mut f = Vec::new();
    let nj = jobs().len();
    // the yardstick itself
    f.push(listed("alone", "every job alone: grids as the reference model has them, images show the symbols drawn in them", (0..nj).collect(), move |&j: &usize| {
        let mut c = Case::new();
        c.state(j as u64);
        c.calls += STEPS as u64;
        let saw = match alone(j) {
            Ok(a) => &a.0,
            Err(e) => {
                c.fail(e.clone());
                return c;
            }
        };
        match &jobs()[j].what {
            What::Cells(m, e) => {
                let Some(Saw::Read(out, r)) = saw.iter().find(|s| matches!(s, Saw::Read(..))) else { unreachable!() };
                let Some(e) = e else {
                    if r.is_ok() || !out.is_empty() {
                        c.fail(format!("{r:?} {}", hex(out)));
                    }
                    c.out("no symbol");
                    return c;
                };
                match judge(e, out, r, Some(&|meta: &Meta, out: &[u8]| nearly(m, meta, out))) {
                    Ok(o) => c.out(o),
                    Err(e) => c.fail(e),
                }
            }
            What::Image { drawn, .. } => {
                let Some(Saw::Grids(f)) = saw.iter().find(|s| matches!(s, Saw::Grids(..))) else { unreachable!() };
                let read: Vec<&Found> = f.iter().filter(|f| f.res.is_ok()).collect();
                if read.len() != drawn.len() {
                    c.fail(format!("{} symbols read, {} drawn", read.len(), drawn.len()));
                }
                for s in drawn {
                    if read.iter().filter(|f| f.out == s.out && f.res == Ok(s.meta())).count() != 1 {
                        c.fail(format!("{} not read exactly once", hex(&s.out)));
                    }
                }
                c.out("image");
            }
        }
        c
    }));
    // in turn
    let two = turns(2);
    let nt = two.len() as u64;
    let two2 = two.clone();
    f.push(Family::new(
        "two in turn",
        (nj * nj) as u64 * nt * 2,
        format!("all ordered pairs of {nj} jobs, each in {STEPS} steps (prepare / search or raw data / read), in all {nt} interleavings, on one thread or each on its own; jobs: {}", names(&(0..nj).collect::<Vec<_>>())),
        move |i| {
            let mut x = Ix(i);
            let (th, t, a, b) = (x.take(2), x.take(two2.len()), x.take(nj), x.take(nj));
            format!("'{}' and '{}', turns {:?}, {} thread(s)", jobs()[a].name, jobs()[b].name, two2[t], th + 1)
        },
        move |i| {
            let mut x = Ix(i);
            let (th, t, a, b) = (x.take(2), x.take(two.len()), x.take(nj), x.take(nj));
            let mut c = Case::new();
            c.state(i);
            let who = [a, b];
            for (k, r) in in_turn(&who, &two[t], th == 1).into_iter().enumerate() {
                same(&mut c, who[k], r, || format!("in turn with '{}'", jobs()[who[1 - k]].name));
            }
            c
        },
    ));
    let some: Vec<usize> = if thorough { vec![0, 4, 5, 9, 15, 18] } else { vec![0, 5, 18] };
    let (n3, three) = (some.len(), turns(3));
    let (some2, three2) = (some.clone(), three.clone());
    f.push(Family::new(
        "three in turn",
        (n3 * n3 * n3) as u64 * three.len() as u64,
        format!("all {} interleavings of three jobs on one thread, out of: {}", three.len(), names(&some)),
        move |i| {
            let mut x = Ix(i);
            let (t, a, b, c) = (x.take(three2.len()), x.take(n3), x.take(n3), x.take(n3));
            format!("{}, turns {:?}", names(&[some2[a], some2[b], some2[c]]), three2[t])
        },
        move |i| {
            let mut x = Ix(i);
            let (t, a, b, d) = (x.take(three.len()), x.take(n3), x.take(n3), x.take(n3));
            let who = [some[a], some[b], some[d]];
            let mut c = Case::new();
            c.state(i);
            for (k, r) in in_turn(&who, &three[t], false).into_iter().enumerate() {
                same(&mut c, who[k], r, || "in turn with two others".into());
            }
            c
        },
    ));
    // many calls before
    let long = if thorough { 3000u64 } else { 300 };
    f.push(Family::new(
        "after many",
        (nj * nj) as u64,
        format!("each job after {long} times each other (images: {}) on the same thread; the last of those is judged as well", long / 10),
        move |i| format!("'{}' many times, then '{}'", jobs()[i as usize % nj].name, jobs()[i as usize / nj].name),
        move |i| {
            let (a, b) = (i as usize % nj, i as usize / nj);
            let mut c = Case::new();
            c.state(i);
            let n = if a < FIRST_IMAGE { long } else { long / 10 };
            c.calls += n * STEPS as u64;
            let r = aside(move || {
                for _ in 1..n {
                    let _ = Running::new(a).all();
                }
                (Running::new(a).all(), Running::new(b).all())
            });
            match r {
                Err(e) => c.fail(e),
                Ok((ra, rb)) => {
                    same(&mut c, a, Ok(ra), || format!("for the {n}th time"));
                    same(&mut c, b, Ok(rb), || format!("after {n} times '{}'", jobs()[a].name));
                }
            }
            c
        },
    ));
    // one preemption
    let grids: Vec<usize> = (0..FIRST_IMAGE).collect();
    let pics: Vec<usize> = if thorough { (FIRST_IMAGE..nj - 2).collect() } else { vec![15, 19] };
    let small = vec![17, 18];
    let by: Vec<usize> = if thorough { vec![0, 2, 3, 4, 5, 6, 10, 11, 15, 16, 19] } else { vec![0, 5, 11, 18] };
    let (large, tiny): (Vec<usize>, Vec<usize>) = grids.iter().partition(|&&j| matches!(j, 11 | 12));
    let wide = if thorough { 1 } else { 17 };
    let rare = if thorough { 17 } else { 197 };
    for (name, who, step) in [("grids interrupted", &tiny, 1), ("larger grids interrupted", &large, wide), ("small searches interrupted", &small, 1), ("searches interrupted", &pics, rare)] {
        let cb = callbacks(who, step);
        let by = by.clone();
        let by2 = by.clone();
        let cb2 = cb.clone();
        f.push(Family::new(
            name,
            (cb.len() * by.len() * 2) as u64,
            format!("each of the jobs: {}; stopped at calls of the caller's grid, image or writer, {step} apart, to do the whole of one of: {}; on the same thread, in the callback, or on another", names(who), names(&by)),
            move |i| {
                let mut x = Ix(i);
                let (th, b, k) = (x.take(2), x.take(by2.len()), x.take(cb2.len()));
                format!("'{}' stopped at {} for '{}', {}", jobs()[cb2[k].0].name, cb2[k].1, jobs()[by2[b]].name, ["same thread", "other thread"][th])
            },
            move |i| {
                let mut x = Ix(i);
                let (th, b, k) = (x.take(2), x.take(by.len()), x.take(cb.len()));
                let mut c = Case::new();
                c.state(i);
                inside(&mut c, cb[k].0, cb[k].1, by[b], th == 1);
                c
            },
        ));
    }
    // two preemptions
    let pairs: Vec<(usize, usize)> = if thorough { vec![(0, 1), (0, 5), (5, 0), (3, 0), (2, 4), (4, 2), (13, 10)] } else { vec![(0, 5)] };
    let step = if thorough { 1 } else { 4 };
    for (a, b) in pairs {
        let (ka, kb) = (calls(a).div_ceil(step), calls(b).div_ceil(step));
        f.push(Family::new(
            "two preemptions",
            ka * kb,
            format!("'{}' stopped at call k, '{}' on another thread up to its call l, the first to its end, then the second; all k and l, {step} apart", jobs()[a].name, jobs()[b].name),
            move |i| format!("'{}' {} '{}' {}", jobs()[a].name, 1 + i % ka * step, jobs()[b].name, 1 + i / ka * step),
            move |i| {
                let mut c = Case::new();
                c.state(i);
                twice(&mut c, a, 1 + i % ka * step, b, 1 + i / ka * step);
                c
            },
        ));
    }
    // broken off
    let who: Vec<usize> = grids.iter().chain(&small).chain(&pics).copied().collect();
    let mut cb = callbacks(&tiny, 1);
    cb.extend(callbacks(&large, wide));
    cb.extend(callbacks(&small, 1));
    cb.extend(callbacks(&pics, rare));
    let cb2 = cb.clone();
    let then: Vec<usize> = if thorough { vec![0, 3, 5, 11, 15, 18] } else { vec![0, 11] };
    let then2 = then.clone();
    f.push(Family::new(
        "broken off",
        (cb.len() * then.len() * 2) as u64,
        format!("each of the jobs: {}; broken off by a panic in every single call of the caller's grid, image or writer (in the larger grids {wide}, in the larger images {rare} apart); then, on the same or another thread: {}", names(&who), names(&then)),
        move |i| {
            let mut x = Ix(i);
            let (th, b, k) = (x.take(2), x.take(then2.len()), x.take(cb2.len()));
            format!("'{}' broken off at {}, then '{}', {}", jobs()[cb2[k].0].name, cb2[k].1, jobs()[then2[b]].name, ["same thread", "other thread"][th])
        },
        move |i| {
            let mut x = Ix(i);
            let (th, b, k) = (x.take(2), x.take(then.len()), x.take(cb.len()));
            let mut c = Case::new();
            c.state(i);
            broken(&mut c, cb[k].0, cb[k].1, then[b], th == 1);
            c
        },
    ));
    Property {
        id: "C28",
        assumptions: a(&[
            "scheduling points are the calls the crate makes to the caller's grid, image and writer, and the boundaries of its own functions; what happens between two of them is not interrupted",
        ]),
        families: f,
    }
}

fn a(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}
