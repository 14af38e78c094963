//! C10: the output writer as an adversarial environment.

use crate::engine::*;
use crate::model::*;
use crate::qr::*;
use crate::util::*;
use rqrr::DeQRError;
use std::io::{Error, ErrorKind, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans {
    All,
    One,
    Interrupted,
    Zero,
    Fault,
    Block,
}
use Ans::*;
const DEV: [Ans; 5] = [One, Interrupted, Zero, Fault, Block];

/// A writer whose answer at each call follows a plan; the default is to accept.
struct W<'a> {
    plan: &'a [(usize, Ans)],
    call: usize,
    got: Vec<u8>,
    broken: bool,
    used: usize,
}
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let a = self.plan.iter().find(|p| p.0 == self.call).map(|p| p.1).unwrap_or(All);
        self.call += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if a != All {
            self.used += 1;
        }
        match a {
            All => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            One => {
                self.got.push(b[0]);
                Ok(1)
            }
            Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Zero => {
                self.broken = true;
                Ok(0)
            }
            Fault => {
                self.broken = true;
                Err(Error::new(ErrorKind::Other, "device"))
            }
            Block => {
                self.broken = true;
                Err(Error::from(ErrorKind::WouldBlock))
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Sub {
    name: &'static str,
    m: Modules,
    e: Expect,
}

fn subjects() -> &'static [Sub] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Sub>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        let mut add = |name: &'static str, m: Modules| {
            let e = ref_decode(&m);
            v.push(Sub { name, m, e });
        };
        let k = kanji_valid();
        add("bytes", Symbol::from_segs(1, L, 0, &[Seg::Byte(b"0123456789abcdefg".to_vec())]).modules());
        add("digits", Symbol::from_segs(1, M, 1, &[Seg::Num(b"31415926535897932".to_vec())]).modules());
        add("alphanumeric", Symbol::from_segs(1, M, 2, &[Seg::Alnum(b"HELLO WORLD 42:-/".to_vec())]).modules());
        add("kanji", Symbol::from_segs(1, L, 3, &[Seg::Kanji((0..9).map(|i| k[i * 700]).collect())]).modules());
        add(
            "mixed",
            Symbol::from_segs(
                2,
                L,
                4,
                &[
                    Seg::Eci(26),
                    Seg::Byte(b"abc".to_vec()),
                    Seg::Num(b"12".to_vec()),
                    Seg::Alnum(b"XYZ".to_vec()),
                    Seg::Kanji(vec![k[5], k[6]]),
                    Seg::Byte(b"z".to_vec()),
                ],
            )
            .modules(),
        );
        add("mirrored", Symbol::from_segs(1, L, 5, &[Seg::Byte(b"mirror image".to_vec())]).modules().transpose());
        // valid segment, then an unknown mode / an underflow
        let bad = |tail: &dyn Fn(&mut Bits)| {
            let mut b = Bits::default();
            Seg::Byte(b"half".to_vec()).emit(1, &mut b);
            Seg::Num(b"123".to_vec()).emit(1, &mut b);
            tail(&mut b);
            while b.len() < blk(1, L).data_total * 8 {
                b.0.push(true);
            }
            Symbol::from_data(1, L, 6, &pack(&b), vec![]).modules()
        };
        add("unknown mode behind content", bad(&|b| b.push(3, 4)));
        add("underflow behind content", bad(&|b| b.push(0x4ff, 12)));
        let mut d = Symbol::from_segs(1, L, 0, &[Seg::Byte(b"0123456789abcdefg".to_vec())]);
        for p in 0..12 {
            d.blocks[0][p * 2] ^= 0x5a;
        }
        add("beyond repair", d.modules());
        let mut m = Symbol::from_segs(1, L, 0, &[Seg::Byte(b"0123456789abcdefg".to_vec())]).modules();
        put_format(&mut m, 0, super::symbol::undecodable()[0]);
        put_format(&mut m, 1, super::symbol::undecodable()[1]);
        add("no format", m);
        v
    })
}

fn run(s: &Sub, plan: &[(usize, Ans)]) -> Case {
    let mut c = Case::new();
    let mut w = W { plan, call: 0, got: vec![], broken: false, used: 0 };
    c.call();
    let r = dec_into(&s.m, &mut w);
    c.calls += w.call as u64;
    let mut h = vec![hash_bools(1, &s.m.m), hash_bytes(3, &w.got), w.call as u64, w.used as u64];
    h.extend(plan.iter().map(|p| (p.0 * 8 + p.1 as usize) as u64));
    c.state(hash_u64s(&h));
    if w.broken {
        c.out("writer failed");
        // the failure is reported, what arrived is a prefix
        if r != Err(DeQRError::IoError) {
            c.fail(format!("the writer failed but decode_to answers {r:?}"));
        }
        if !s.e.out.starts_with(&w.got) {
            c.fail(format!("the writer received {} which is no prefix of {}", hex(&w.got), hex(&s.e.out)));
        }
        return c;
    }
    match judge(&s.e, &w.got, &r, None) {
        Ok(o) => c.out(if w.used > 0 { "survived deviations" } else { o }),
        Err(m) => c.fail(m),
    }
    if s.e.hard && w.call > 0 {
        c.fail(format!("{} bytes offered to the writer before the symbol was known to be readable", w.call));
    }
    c
}

pub fn c10(thorough: bool) -> Property {
    let mut f = Vec::new();
    let ns = subjects().len();
    let calls = 24usize;
    let depth: usize = if thorough { 3 } else { 2 };
    for d in 0..=depth {
        let points = binom(calls, d);
        let total = ns as u64 * points * 5u64.pow(d as u32);
        let plan = move |i: u64| {
            let mut x = Ix(i);
            let s = x.take(ns);
            let a: Vec<Ans> = (0..d).map(|_| DEV[x.take(5)]).collect();
            let at = subset(x.0, calls, d);
            (s, at.into_iter().zip(a).collect::<Vec<_>>())
        };
        f.push(Family::new(
            ["no deviation", "one deviation", "two deviations", "three deviations"][d],
            total,
            format!("{ns} symbols x every placement of {d} deviations {{one byte accepted, Interrupted, Ok(0), error, WouldBlock}} on the first {calls} writer calls"),
            move |i| {
                let (s, p) = plan(i);
                format!("{}: {p:?}", subjects()[s].name)
            },
            move |i| {
                let (s, p) = plan(i);
                run(&subjects()[s], &p)
            },
        ));
    }
    // bounded buffers: std's slice writer
    f.push(Family::new(
        "fixed buffers",
        ns as u64 * 40,
        "every symbol into a slice of 0..40 bytes: IoError exactly when the content does not fit",
        move |i| format!("{} into {} bytes", subjects()[(i % ns as u64) as usize].name, i / ns as u64),
        move |i| {
            let s = &subjects()[(i % ns as u64) as usize];
            let n = (i / ns as u64) as usize;
            let mut buf = vec![0xAAu8; n];
            let mut c = Case::new();
            c.call();
            let left;
            let r = {
                let mut w: &mut [u8] = &mut buf[..];
                let r = dec_into(&s.m, &mut w);
                left = w.len();
                r
            };
            c.state(hash_u64s(&[i, left as u64]));
            let got = &buf[..n - left];
            if s.e.out.len() > n {
                // some of it may not have been offered at all if the payload is malformed
                let ok = match &s.e.verdict {
                    Verdict::Ok => r == Err(DeQRError::IoError),
                    Verdict::Err(e) => r == Err(DeQRError::IoError) || r == Err(*e),
                    Verdict::Undefined => true,
                };
                if !ok || !s.e.out.starts_with(got) {
                    c.fail(format!("{} bytes of {} fit, decode_to answers {r:?} after {}", n, s.e.out.len(), hex(got)));
                }
                c.out("does not fit");
            } else {
                match judge(&s.e, got, &r, None) {
                    Ok(o) => c.out(o),
                    Err(m) => c.fail(m),
                }
            }
            c
        },
    ));
    // a long symbol: fault at every single write
    f.push(Family::new(
        "fault at every byte",
        1200 * 2,
        "version 20-L with 858 bytes: an error or Ok(0) at each of the first 1200 writer calls",
        |i| format!("fault kind {} at call {}", i % 2, i / 2),
        |i| {
            use std::sync::OnceLock;
            static S: OnceLock<Sub> = OnceLock::new();
            let s = S.get_or_init(|| {
                let m = Symbol::full(20, L, 2, 0, 5).modules();
                let e = ref_decode(&m);
                Sub { name: "long", m, e }
            });
            run(s, &[((i / 2) as usize, if i % 2 == 0 { Fault } else { Zero })])
        },
    ));
    Property {
        id: "C10",
        assumptions: vec![
            "a writer that answers Interrupted is to be asked again, one that answers Ok(0) or another error has failed (std::io::Write contract)".into(),
        ],
        families: f,
    }
}
