//! C06 well-formed payloads, C07 malformed payloads.

use crate::engine::*;
use crate::model::*;
use crate::qr::*;
use crate::util::*;
use rqrr::DeQRError;

/// Segment sequences whose total length covers every residue modulo 8 (small versions).
fn shifts() -> Vec<Vec<Seg>> {
    let n1 = || Seg::Num(b"7".to_vec());
    let a1 = || Seg::Alnum(b"Q".to_vec());
    vec![
        vec![],
        vec![a1(), a1(), a1()],
        vec![n1()],
        vec![a1()],
        vec![n1(), n1()],
        vec![n1(), a1()],
        vec![n1(), n1(), n1()],
        vec![a1(), n1(), n1()],
    ]
}

fn run_segs(v: usize, l: usize, mask: usize, segs: &[Seg]) -> Case {
    let mut c = Case::new();
    let (b, _) = encode_segs(v, segs);
    if b.len() > blk(v, l).data_total * 8 {
        c.out("does not fit");
        return c;
    }
    let s = Symbol::from_segs(v, l, mask, segs);
    let m = s.modules();
    c.state(hash_bools(v as u64, &m.m));
    expect_symbol(&mut c, &s, &m);
    c
}

fn alphabet() -> Vec<Seg> {
    let k = kanji_valid();
    vec![
        Seg::Num(vec![]),
        Seg::Num(b"0".to_vec()),
        Seg::Num(b"09".to_vec()),
        Seg::Num(b"000".to_vec()),
        Seg::Num(b"999".to_vec()),
        Seg::Num(b"0012".to_vec()),
        Seg::Num(b"10203".to_vec()),
        Seg::Alnum(vec![]),
        Seg::Alnum(b"A".to_vec()),
        Seg::Alnum(b":".to_vec()),
        Seg::Alnum(b"::".to_vec()),
        Seg::Alnum(b"00".to_vec()),
        Seg::Alnum(b"A $%".to_vec()),
        Seg::Byte(vec![]),
        Seg::Byte(vec![0]),
        Seg::Byte(vec![0xff]),
        Seg::Byte("äß".as_bytes().to_vec()),
        Seg::Byte(b"hello".to_vec()),
        Seg::Kanji(vec![]),
        Seg::Kanji(vec![k[0]]),
        Seg::Kanji(vec![k[k.len() - 1]]),
        Seg::Kanji(vec![0xd9f, 0x1aaa]),
        Seg::Eci(0),
        Seg::Eci(26),
        Seg::Eci(127),
        Seg::Eci(128),
        Seg::Eci(16383),
        Seg::Eci(16384),
        Seg::Eci(999999),
    ]
}

pub fn c06(thorough: bool) -> Property {
    let mut f = Vec::new();
    // value tables, alone, at every bit alignment
    let tables: Vec<Seg> = {
        let mut t = Vec::new();
        for v in 0..1000 {
            t.push(Seg::Num(format!("{v:03}").into_bytes()));
        }
        for v in 0..100 {
            t.push(Seg::Num(format!("{v:02}").into_bytes()));
        }
        for v in 0..10 {
            t.push(Seg::Num(format!("{v}").into_bytes()));
        }
        for a in ALNUM {
            t.push(Seg::Alnum(vec![*a]));
            for b in ALNUM {
                t.push(Seg::Alnum(vec![*a, *b]));
            }
        }
        for b in 0..=255u8 {
            t.push(Seg::Byte(vec![b]));
        }
        for &k in kanji_valid() {
            t.push(Seg::Kanji(vec![k]));
        }
        t
    };
    let nt = tables.len();
    let t2 = tables.clone();
    f.push(Family::new(
        "value tables",
        nt as u64 * 8,
        format!("all {nt} single groups (1000+100+10 numeric, 2025+45 alphanumeric, 256 bytes, all Shift-JIS kanji) at all 8 bit alignments, version 2-L"),
        move |i| format!("{:?} behind {} bits mod 8", t2[(i / 8) as usize], i % 8),
        {
            let sh = shifts();
            move |i| {
                let mut s = sh[(i % 8) as usize].clone();
                s.push(tables[(i / 8) as usize].clone());
                run_segs(2, L, (i % 8) as usize, &s)
            }
        },
    ));
    // whole tables in larger version classes
    let mut packed: Vec<(usize, Vec<Seg>)> = Vec::new();
    for v in [10usize, 26, 27, 40] {
        let num: Vec<u8> = (0..1000).flat_map(|x| format!("{x:03}").into_bytes()).collect();
        let alp: Vec<u8> = ALNUM.iter().flat_map(|&a| ALNUM.iter().flat_map(move |&b| [a, b])).collect();
        let byt: Vec<u8> = (0..=255).collect();
        let chunk = |d: &[u8], k: usize, mk: &dyn Fn(Vec<u8>) -> Seg| -> Vec<Seg> {
            let n = (cap(k, v, L) - 3) / 6 * 6;
            d.chunks(n.max(6)).map(|c| mk(c.to_vec())).collect()
        };
        for s in chunk(&num, 2, &Seg::Num).into_iter().chain(chunk(&alp, 1, &Seg::Alnum)).chain(chunk(&byt, 0, &Seg::Byte)) {
            packed.push((v, vec![s.clone()]));
            packed.push((v, vec![Seg::Eci(200), s]));
        }
        let n = cap(3, v, L);
        for c in kanji_valid().chunks(n) {
            packed.push((v, vec![Seg::Kanji(c.to_vec())]));
        }
    }
    let p2: Vec<String> = packed.iter().map(|p| format!("version {} {} segments", p.0, p.1.len())).collect();
    f.push(Family::new(
        "packed tables",
        packed.len() as u64,
        "the same tables packed into versions 10, 26, 27 and 40 at level L",
        move |i| p2[i as usize].clone(),
        move |i| run_segs(packed[i as usize].0, L, (i % 8) as usize, &packed[i as usize].1),
    ));
    // sequences
    let na = alphabet().len();
    let mut plans: Vec<(&'static str, usize, usize, usize, String)> = Vec::new();
    plans.push(("sequences v5", 5, L, 3, "depth 3".into()));
    plans.push(("sequences v10", 10, H, 3, "".into()));
    plans.push(("sequences v9", 9, H, 2, "".into()));
    plans.push(("sequences v26", 26, H, 2, "".into()));
    plans.push(("sequences v27", 27, H, 2, "".into()));
    if thorough {
        plans.push(("sequences v4 depth 4", 4, L, 4, "".into()));
    }
    for (name, v, l, depth, _) in plans {
        let total: u64 = (1..=depth).map(|d| (na as u64).pow(d as u32)).sum();
        let seq = move |mut i: u64| {
            let a = alphabet();
            let mut d = 1;
            while i >= (na as u64).pow(d) {
                i -= (na as u64).pow(d);
                d += 1;
            }
            let mut x = Ix(i);
            (0..d).map(|_| a[x.take(na)].clone()).collect::<Vec<Seg>>()
        };
        f.push(Family::new(
            name,
            total,
            format!("version {v}-{}: all sequences of 1..={depth} segments over an alphabet of {na} (every mode, empty, shortest, odd and even lengths, all ECI widths)", LVL[l]),
            move |i| format!("{:?}", seq(i)),
            move |i| run_segs(v, l, (i % 8) as usize, &seq(i)),
        ));
    }
    f.push(Family::new(
        "all versions",
        40 * na as u64,
        "every segment of the alphabet followed by a byte segment, in every version 1-40 (level L)",
        |i| format!("version {} {:?}", i % 40 + 1, alphabet()[(i / 40) as usize]),
        |i| {
            run_segs((i % 40 + 1) as usize, L, (i % 8) as usize, &[alphabet()[(i / 40) as usize].clone(), Seg::Byte(b"xy".to_vec())])
        },
    ));
    // ends of the stream
    let mut ends = Vec::new();
    for l in 0..4 {
        for nb in 0..=17usize {
            for nn in 0..=41usize {
                for na in 0..=25usize {
                    let mut bits = 0;
                    if nb > 0 {
                        bits += 12 + 8 * nb;
                    }
                    if nn > 0 {
                        bits += 14 + nn / 3 * 10 + [0, 4, 7][nn % 3];
                    }
                    if na > 0 {
                        bits += 13 + na / 2 * 11 + na % 2 * 6;
                    }
                    let capb = blk(1, l).data_total * 8;
                    if bits > 0 && bits <= capb && capb - bits <= 24 {
                        ends.push((l, nb, nn, na));
                    }
                }
            }
        }
    }
    let e2 = ends.clone();
    f.push(Family::new(
        "stream ends",
        ends.len() as u64 * 4,
        "version 1, all levels: every combination of byte/numeric/alphanumeric lengths that leaves 0..=24 bits x 4 paddings behind the (possibly shortened) terminator",
        move |i| format!("(level, bytes, digits, alphanumerics) = {:?}, padding {}", e2[(i / 4) as usize], i % 4),
        move |i| {
            let (l, nb, nn, na) = ends[(i / 4) as usize];
            let mut segs = Vec::new();
            if nb > 0 {
                segs.push(seg_of(0, nb, i));
            }
            if nn > 0 {
                segs.push(seg_of(2, nn, i));
            }
            if na > 0 {
                segs.push(seg_of(1, na, i));
            }
            let (mut b, out) = encode_segs(1, &segs);
            let cap = blk(1, l).data_total * 8;
            let term = (cap - b.len()).min(4);
            b.push(0, term);
            let mut k = 0u64;
            while b.len() < cap {
                b.0.push(match i % 4 {
                    0 => false,
                    1 => true,
                    2 => mix2(i, k) & 1 == 1,
                    _ => k % 2 == 0,
                });
                k += 1;
            }
            let s = Symbol::from_data(1, l, (i % 8) as usize, &pack(&b), out);
            let m = s.modules();
            let mut c = Case::new();
            c.state(hash_bools(l as u64, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    // every pair of modes in either order, up to the last bits
    let mut ends = Vec::new();
    let mut places: Vec<(usize, usize)> = (0..4).map(|l| (1, l)).collect();
    places.extend([(2, H), (10, H), (9, H)]);
    if thorough {
        places.extend([(26, H), (27, H)]);
    }
    for (v, l) in places {
        let capb = blk(v, l).data_total * 8;
        for modes in 0..16usize {
            let (a, b) = (modes / 4, modes % 4);
            for eci in [false, true] {
                let room = capb as isize - if eci { 12 } else { 0 };
                for la in 0.. {
                    let rest = room - seg_bits(a, v, la) as isize;
                    if rest < 0 {
                        break;
                    }
                    for lb in 0.. {
                        let left = rest - seg_bits(b, v, lb) as isize;
                        if left < 0 {
                            break;
                        }
                        if left <= 7 {
                            ends.push((v, l, a, la, b, lb, eci));
                        }
                    }
                }
            }
        }
    }
    f.push(listed(
        "full streams",
        "versions 1 (all levels), 2-H, 9-H, 10-H (thorough: 26, 27-H): all ordered pairs of the four modes, with and without a character-set designator in front, all lengths that leave 0 to 7 bits",
        ends,
        |&(v, l, a, la, b, lb, eci)| {
            let mut segs = Vec::new();
            if eci {
                segs.push(Seg::Eci(26));
            }
            segs.push(seg_of(a, la, (la * 7 + lb) as u64));
            segs.push(seg_of(b, lb, (lb * 5 + la + 1) as u64));
            run_segs(v, l, (la + lb) % 8, &segs)
        },
    ));
    f.push(Family::new(
        "after the terminator",
        65536,
        "version 1-H: all 16 bit patterns behind the terminator are ignored",
        |i| format!("{:016b} behind the terminator", i),
        |i| {
            let mut b = Bits::default();
            let s = Seg::Byte(b"Az".to_vec());
            s.emit(1, &mut b);
            b.push(0, 4);
            b.push(i as usize, 16);
            while b.len() < blk(1, H).data_total * 8 {
                b.push((mix(i) & 1) as usize, 1);
            }
            let s = Symbol::from_data(1, H, 5, &pack(&b), b"Az".to_vec());
            let m = s.modules();
            let mut c = Case::new();
            c.state(hash_bools(1, &m.m));
            expect_symbol(&mut c, &s, &m);
            c
        },
    ));
    Property {
        id: "C06",
        assumptions: vec![
            "segment headers, group encodings and the Shift-JIS compaction from ISO/IEC 18004 7.4".into(),
            "ECI designators select no output (the crate hands out the bytes as they are)".into(),
        ],
        families: f,
    }
}

fn run_data(v: usize, l: usize, mask: usize, data: &[u8]) -> Case {
    let mut c = Case::new();
    let s = Symbol::from_data(v, l, mask, data, vec![]);
    let m = s.modules();
    let p = parse(v, data);
    let e = Expect { meta: Some(s.meta()), out: p.out, verdict: p.verdict, also: p.also, hard: false };
    c.state(hash_bytes(v as u64 * 8 + l as u64, data));
    c.calls += 2;
    let (out, r) = dec(&m);
    match judge(&e, &out, &r, None) {
        Ok(o) => c.out(o),
        Err(s) => c.fail(s),
    }
    // text interface
    let t = dec_str(&m);
    let ok = match (&r, &t) {
        (Ok(m), Ok((n, s))) => m == n && s.as_bytes() == out,
        (Ok(_), Err(DeQRError::EncodingError)) => std::str::from_utf8(&out).is_err(),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok {
        c.fail(format!("decode_to answers {r:?} with {}, decode answers {t:?}", hex(&out)));
    }
    c
}

fn fill(b: &mut Bits, bits: usize, kind: usize, seed: u64) {
    let mut k = 0u64;
    while b.len() < bits {
        b.0.push(match kind {
            0 => false,
            1 => true,
            2 => k % 2 == 0,
            3 => mix2(seed, k) & 1 == 1,
            4 => (0xEC11u64 >> (15 - k % 16)) & 1 == 1,
            _ => mix2(seed, k) & 3 == 0,
        });
        k += 1;
    }
    b.0.truncate(bits);
}

pub fn c07(thorough: bool) -> Property {
    let mut f = Vec::new();
    let nb: u32 = if thorough { 22 } else { 19 };
    f.push(Family::new(
        "prefixes",
        1u64 << nb,
        format!("version 1-H: all {nb} bit prefixes, unstructured tail"),
        move |i| format!("prefix {:0w$b}", i, w = nb as usize),
        move |i| {
            let mut b = Bits::default();
            b.push(i as usize, nb as usize);
            fill(&mut b, 72, 3, i);
            run_data(1, H, (i % 8) as usize, &pack(&b))
        },
    ));
    f.push(Family::new(
        "prefixes and tails",
        65536 * 5,
        "version 1-H: all 16 bit prefixes x 5 tails (zeros, ones, alternating, pad bytes, sparse)",
        |i| format!("prefix {:016b} tail {}", i % 65536, i / 65536),
        |i| {
            let mut b = Bits::default();
            b.push((i % 65536) as usize, 16);
            fill(&mut b, 72, [0, 1, 2, 4, 5][(i / 65536) as usize], i);
            run_data(1, H, (i % 8) as usize, &pack(&b))
        },
    ));
    let firsts = || {
        vec![
            Seg::Byte(b"AB".to_vec()),
            Seg::Num(b"12345".to_vec()),
            Seg::Alnum(b"XYZ".to_vec()),
            Seg::Kanji(vec![kanji_valid()[100]]),
            Seg::Eci(300),
        ]
    };
    f.push(Family::new(
        "second segment",
        65536 * 5,
        "version 1-H: a valid segment of each mode followed by all 16 bit patterns",
        move |i| format!("{:?} then {:016b}", firsts()[(i / 65536) as usize], i % 65536),
        move |i| {
            let mut b = Bits::default();
            firsts()[(i / 65536) as usize].emit(1, &mut b);
            b.push((i % 65536) as usize, 16);
            fill(&mut b, 72, 3, i);
            run_data(1, H, (i % 8) as usize, &pack(&b))
        },
    ));
    // ends: r bits left, all patterns
    let maxr = if thorough { 18 } else { 15 };
    let total: u64 = (0..=maxr).map(|r| 1u64 << r).sum();
    let locate = move |mut i: u64| {
        let mut r = 0u32;
        while i >= 1 << r {
            i -= 1 << r;
            r += 1;
        }
        (r as usize, i as usize)
    };
    f.push(Family::new(
        "last bits",
        total,
        format!("version 1-H: complete segments that leave r bits, every r in 0..={maxr} and every pattern of those r bits"),
        move |i| {
            let (r, p) = locate(i);
            format!("{r} bits left: {:0r$b}", p, r = r)
        },
        move |i| {
            let (r, p) = locate(i);
            // find segments of exactly 72 - r bits
            let want = 72 - r;
            let mut found = None;
            'o: for a in 0..=5usize {
                for n in 0..=12usize {
                    for by in 0..=6usize {
                        let la = if a > 0 { 13 + a / 2 * 11 + a % 2 * 6 } else { 0 };
                        let ln = if n > 0 { 14 + n / 3 * 10 + [0, 4, 7][n % 3] } else { 0 };
                        let lb = if by > 0 { 12 + 8 * by } else { 0 };
                        if la + ln + lb == want {
                            found = Some((a, n, by));
                            break 'o;
                        }
                    }
                }
            }
            let mut b = Bits::default();
            match found {
                Some((a, n, by)) => {
                    if a > 0 {
                        seg_of(1, a, i).emit(1, &mut b)
                    }
                    if n > 0 {
                        seg_of(2, n, i).emit(1, &mut b)
                    }
                    if by > 0 {
                        seg_of(0, by, i).emit(1, &mut b)
                    }
                }
                None => {
                    let mut c = Case::new();
                    c.out("length not reachable");
                    return c;
                }
            }
            b.push(p, r);
            run_data(1, H, (i % 8) as usize, &pack(&b))
        },
    ));
    // larger classes: every mode with every interesting count
    let mut big = Vec::new();
    for (v, l) in [(1, L), (1, M), (2, H), (9, H), (9, L), (10, H), (10, L), (18, Q), (26, H), (26, L), (27, H), (27, L), (33, M), (40, H), (40, L)] {
        for mode in 0..16usize {
            let kind = [9, 2, 1, 9, 0, 9, 9, 9, 3, 9, 9, 9, 9, 9, 9, 9][mode];
            let mut counts = vec![0usize];
            if kind < 4 {
                let cb = [[8, 16, 16], [9, 11, 13], [10, 12, 14], [8, 10, 12]][kind][class(v)];
                let cp = cap(kind, v, l);
                let max = (1usize << cb) - 1;
                counts = vec![0, 1, 2, 3, cp / 2, cp.saturating_sub(1), cp, cp + 1, cp + 2, cp + 3, cp + 7, max / 2, max / 2 + 1, max - 1, max];
                for k in 0..cb {
                    counts.push(1 << k);
                }
                counts.retain(|&x| x <= max);
                counts.sort();
                counts.dedup();
            }
            for c in counts {
                for t in 0..3usize {
                    big.push((v, l, mode, kind, c, t));
                }
            }
        }
    }
    big.sort_by_key(|b| std::cmp::Reverse(b.0));
    let b2 = big.clone();
    f.push(Family::new(
        "counts",
        big.len() as u64,
        "15 (version, level) over all three header classes x all 16 modes x counts {0-3, around capacity, powers of two, maximum} x 3 tails",
        move |i| {
            let (v, l, m, _, c, t) = b2[i as usize];
            format!("version {v}-{} mode {m:04b} count {c} tail {t}", LVL[l])
        },
        move |i| {
            let (v, l, mode, kind, cnt, t) = big[i as usize];
            let bits = blk(v, l).data_total * 8;
            let mut b = Bits::default();
            b.push(mode, 4);
            if kind < 4 {
                let cb = [[8, 16, 16], [9, 11, 13], [10, 12, 14], [8, 10, 12]][kind][class(v)];
                b.push(cnt, cb);
                // defined groups all the way
                while b.len() + 16 < bits {
                    let h = mix2(i, b.len() as u64);
                    match kind {
                        0 => b.push((h % 256) as usize, 8),
                        1 => b.push((h % 2025) as usize, 11),
                        2 => b.push((h % 1000) as usize, 10),
                        _ => b.push(kanji_valid()[(h % kanji_valid().len() as u64) as usize] as usize, 13),
                    }
                }
            }
            fill(&mut b, bits, [0, 4, 3][t], i);
            run_data(v, l, (i % 8) as usize, &pack(&b))
        },
    ));
    // UTF-8 validity of the text interface
    f.push(Family::new(
        "utf-8",
        65536 + 16 * 16 * 16 * 16,
        "version 1-H: all two byte contents, and four byte contents over 16 boundary bytes: decode() yields exactly the valid UTF-8 texts",
        |i| format!("content #{i}"),
        |i| {
            let d: Vec<u8> = if i < 65536 {
                vec![(i >> 8) as u8, i as u8]
            } else {
                const B: [u8; 16] = [
                    0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4,
                ];
                let mut x = Ix(i - 65536);
                (0..4).map(|_| B[x.take(16)]).collect()
            };
            let (b, _) = encode_segs(1, &[Seg::Byte(d)]);
            run_data(1, H, (i % 8) as usize, &finish(b, 9))
        },
    ));
    Property {
        id: "C07",
        assumptions: vec![
            "streams the standard gives no meaning (digit groups >= 1000, alphanumeric pairs >= 2025, kanji values outside Shift-JIS, ECI designators 111xxxxx) may be answered in any way that returns".into(),
            "a count field cut off by the end of the data is an underflow, or an empty segment if what is left of it is zero".into(),
        ],
        families: f,
    }
}
