//! C14: predictors and byte order.
use async_tiff::decoder::DecoderRegistry;

use super::c01::BYTEWISE;
use super::c15::encode;
use super::kit::{unrelated, Spec};
use super::{about, check_array, expect_type, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::tiffw::{mix, predict, Comp};
use crate::Tier;

thread_local! {
    static REG: DecoderRegistry = DecoderRegistry::default();
}

/// Samples in storage order of the tile (pixel by pixel, or band by band).
#[derive(Clone, Debug)]
struct Case {
    be: bool,
    planar: bool,
    w: u32,
    h: u32,
    spp: u16,
    sf: u16,
    bits: u16,
    pred: u16,
}

fn run(ch: &mut Ch, c: &Case, samples: &[u64], must: bool) -> Result<(), String> {
    run_in(ch, c, samples, must, Comp::None, vec![])
}

fn run_in(ch: &mut Ch, c: &Case, samples: &[u64], must: bool, comp: Comp, ctx: Vec<usize>) -> Result<(), String> {
    let mut s = Spec::new(c.w, c.h, c.spp, c.planar, c.sf, c.bits);
    (s.comp, s.ctx) = (comp.code(), ctx);
    s.be = c.be;
    s.pred = c.pred;
    let blocks: Vec<Vec<u8>> = if c.planar {
        samples
            .chunks((c.w * c.h) as usize)
            .map(|b| predict(b, c.bits, 1, c.w as usize, c.pred, c.be))
            .collect()
    } else {
        vec![predict(samples, c.bits, c.spp as usize, c.w as usize, c.pred, c.be)]
    };
    ch.note(|| format!("{c:?} samples {samples:x?} stored as {blocks:x?}"));
    let blocks: Vec<Vec<u8>> = if comp == Comp::None { blocks } else { blocks.iter().map(|b| encode(comp, b, 0)).collect() };
    let t = s.fetch(&blocks).map_err(|e| format!("fetch: {e}"))?;
    let r = REG.with(|g| t.decode(g));
    match r {
        Ok(a) => check_array(&a, expect_type(c.sf, c.bits).unwrap(), s.shape(), samples, "the tile"),
        Err(e) => {
            ensure!(!must, "the tile is refused: {e}");
            Ok(())
        }
    }
}

const TYPES: [(u16, u16); 10] = [(1, 8), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (1, 64), (2, 64), (3, 64)];

fn mask(bits: u16) -> u64 {
    if bits == 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

/// Values that exercise carries out of every byte, wrap-around and the special floats.
fn alphabet(sf: u16, bits: u16, n: usize) -> Vec<u64> {
    let m = mask(bits);
    let mut v = match (sf, bits) {
        (3, 32) => vec![0x7fc0_1234u64, 0x8000_0000, 0x7f80_0000, 0x3f80_0001, 0xffa0_0001, 1, 0xff80_0000],
        (3, 64) => vec![0x7ff8_dead_beef_0001, 1 << 63, 0x7ff0_0000_0000_0000, 0x3ff0_0000_0000_0001, 0xfff4_0000_0000_0002, 1, 0xfff0_0000_0000_0000],
        _ => vec![0, m, 1 << (bits - 1), 0x0102_0304_0506_0708 & m, m >> 1, 0xff, 0xa5a5_5a5a_0180_ff7f & m],
    };
    v.truncate(n);
    v
}

/// The values around the powers of two, where sums carry.
fn around(bits: u16) -> Vec<u64> {
    let m = mask(bits);
    let step = if bits == 8 { 1 } else { 4 };
    let mut v: Vec<u64> = (0..bits)
        .filter(|k| k % step == 0 || (k + 1) % 8 == 0)
        .flat_map(|k| [(1u64 << k).wrapping_sub(1), 1 << k, m ^ (1 << k)])
        .chain([m, m - 1, m >> 1])
        .collect();
    v.sort_unstable();
    v.dedup();
    v
}

const PATTERNS: usize = 10;

/// A row of `n` samples, `spp` to the pixel, in a regular pattern.
fn pattern(p: usize, n: usize, spp: usize, m: u64) -> Vec<u64> {
    (0..n)
        .map(|i| {
            let x = i / spp;
            let last = n / spp - 1;
            m & match p {
                0 => 0,
                1 => 0x0102_0304_0506_0708,
                // ends that are zero, a difference of zero at the end
                2 => if x == 0 || x == last { 0 } else { mix(i as u64) },
                3 => if x + 1 >= last { 5 } else { mix(i as u64) },
                4 => x as u64,
                5 => m.wrapping_sub(x as u64 * 3),
                6 => if x % 2 == 0 { 0 } else { m },
                7 => if x == last / 2 { m } else { 0 },
                8 => mix(i as u64),
                // nothing to begin with, the same at the end
                _ => if x == 0 { 0 } else { mix((x.min(last.saturating_sub(1))) as u64) },
            }
        })
        .collect()
}

/// Does the predictor apply to the type?
fn applies(sf: u16, pred: u16) -> bool {
    pred != 3 || sf == 3
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let maxel = t.sel(4usize, 5);
    let na = t.sel(5, 7);
    let mut bodies = vec![
        body("every tile of up to a few samples over the extreme values", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            let be = ch.flag();
            let planar = ch.flag();
            let (w, h, spp) = ch.pick(&[(1u32, 1u32, 1u16), (2, 1, 1), (3, 1, 1), (4, 1, 1), (1, 2, 1), (2, 2, 1), (1, 3, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3), (1, 1, 4), (5, 1, 1)]);
            let n = w as usize * h as usize * spp as usize;
            if n > maxel {
                return Ok(());
            }
            // Unsigned and signed samples of 16, 32 and 64 bits with the floating-point predictor:
            // an error, or the samples.
            let c = Case { be, planar, w, h, spp, sf, bits, pred };
            let al = alphabet(sf, bits, na);
            let samples: Vec<u64> = (0..n).map(|_| ch.pick(&al)).collect();
            ch.step((be, planar, w, h, spp, sf, bits, pred, &samples));
            ch.observe(&samples);
            if pred == 3 && bits == 8 {
                let mut s = Spec::new(w, h, spp, planar, sf, bits);
                s.be = be;
                s.pred = 3;
                let b = vec![vec![7u8; (w * h) as usize * if planar { 1 } else { spp as usize }]; if planar { spp as usize } else { 1 }];
                let t = s.fetch(&b).map_err(|e| format!("fetch: {e}"))?;
                ensure!(REG.with(|g| t.decode(g)).is_err(), "floating-point predictor on 8-bit samples is no error");
                return Ok(());
            }
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("all pairs of 8-bit samples, all triples of them stepwise", move |ch| {
            let a = ch.choose(256) as u64;
            let planar = ch.flag();
            for b in 0..256u64 {
                let c = Case { be: false, planar, w: 2, h: 1, spp: 1, sf: 1, bits: 8, pred: 2 };
                run(ch, &c, &[a, b], true)?;
                let c = Case { be: true, planar, w: 3, h: 1, spp: 2, sf: 2, bits: 8, pred: 2 };
                run(ch, &c, &[a, b, b, a, a ^ b, 255 - a], true)?;
                ch.step((a, b, planar));
            }
            Ok(())
        }),
        body("all 16-bit samples next to extreme ones", move |ch| {
            let hi = ch.choose(256) as u64;
            let be = ch.flag();
            let (sf, pred) = ch.pick(&[(1u16, 2u16), (2, 2), (1, 1), (1, 3), (2, 0)]);
            for lo in 0..256u64 {
                let v = hi << 8 | lo;
                for p in [0u64, 0xff, 0x8000, 0xffff] {
                    let c = Case { be, planar: false, w: 2, h: 1, spp: 1, sf, bits: 16, pred };
                    run(ch, &c, &[p, v], pred != 3)?;
                }
                ch.step((v, be, sf, pred));
            }
            Ok(())
        }),
        body("every geometry, sample count and organisation", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let planar = ch.flag();
            let spp = ch.choose(t.sel(5, 9)) as u16 + 1;
            let w = ch.choose(t.sel(9, 17)) as u32 + 1;
            let h = ch.choose(t.sel(4, 6)) as u32 + 1;
            let c = Case { be, planar, w, h, spp, sf, bits, pred };
            let n = (w * h) as usize * spp as usize;
            let samples: Vec<u64> = (0..n as u64)
                .map(|i| {
                    let k = mix(i * 977 + w as u64 * 31 + spp as u64);
                    let al = alphabet(sf, bits, 7);
                    if k % 4 == 0 {
                        al[(k >> 8) as usize % al.len()]
                    } else {
                        (k >> 3) & mask(bits)
                    }
                })
                .collect();
            ch.step((be, planar, w, h, spp, sf, bits, pred));
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("all pairs of values around the powers of two", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let al = around(bits);
            let a = ch.pick(&al);
            for b in &al {
                let c = Case { be, planar: false, w: 2, h: 1, spp: 1, sf, bits, pred };
                run(ch, &c, &[a, *b], applies(sf, pred))?;
                ch.step((sf, bits, pred, be, a, b));
            }
            // every one of them as the difference, twice
            for b in &al {
                let c = Case { be, planar: false, w: 3, h: 1, spp: 1, sf, bits, pred };
                let m = mask(bits);
                run(ch, &c, &[a, a.wrapping_add(*b) & m, a.wrapping_add(b.wrapping_mul(2)) & m], applies(sf, pred))?;
                ch.step((sf, bits, pred, be, a, b, 1));
            }
            Ok(())
        }),
        body("regular rows", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3]);
            let w = ch.pick(&[1u32, 2, 5, 16, 33, 130, 300]);
            // the pattern of each of three rows
            let pats: [usize; 3] = [ch.choose(PATTERNS), ch.choose(t.sel(3, PATTERNS)), ch.pick(&[0, 8])];
            let c = Case { be, planar, w, h: 3, spp, sf, bits, pred };
            let row = |p: usize| -> Vec<u64> { pattern(p, w as usize * if planar { 1 } else { spp as usize }, if planar { 1 } else { spp as usize }, mask(bits)) };
            let band: Vec<u64> = pats.iter().flat_map(|p| row(*p)).collect();
            let samples = if planar { band.repeat(spp as usize) } else { band };
            ch.step((be, planar, w, spp, sf, bits, pred, pats));
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("long rows", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 3, 7, 64]);
            let w = ch.pick(&[255u32, 256, 257, 1000]);
            let c = Case { be, planar, w, h: 2, spp, sf, bits, pred };
            let n = (w * 2) as usize * spp as usize;
            let samples: Vec<u64> = (0..n as u64).map(|i| mix(i + w as u64) & mask(bits)).collect();
            ch.step((be, planar, w, spp, sf, bits, pred));
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("rows longer than 65536 bytes and samples, many bands", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let planar = ch.flag();
            let (w, spp) = ch.pick(&[(8193u32, 1u16), (65537, 1), (33_000, 2), (22_000, 3), (3, 22_000), (5, 256), (3, 300), (140_001, 1)][..t.sel(7, 8)]);
            if planar && spp > 300 {
                return Ok(());
            }
            let c = Case { be, planar, w, h: 2, spp, sf, bits, pred };
            let n = (w * 2) as usize * spp as usize;
            let samples: Vec<u64> = (0..n as u64).map(|i| mix(i + w as u64) & mask(bits)).collect();
            ch.step((be, planar, w, spp, sf, bits, pred));
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("tall tiles", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.choose(4) as u16;
            if pred == 3 && bits == 8 {
                return Ok(());
            }
            let be = ch.flag();
            let (w, h, spp) = ch.pick(&[(2u32, 300u32, 1u16), (3, 1000, 2), (1, 70_000, 1), (513, 257, 3)]);
            let c = Case { be, planar: false, w, h, spp, sf, bits, pred };
            let n = (w * h) as usize * spp as usize;
            let samples: Vec<u64> = (0..n as u64).map(|i| mix(i + w as u64) & mask(bits)).collect();
            ch.step((be, w, h, spp, sf, bits, pred));
            run(ch, &c, &samples, applies(sf, pred))
        }),
        body("under every lossless compression and among unrelated tags", move |ch| {
            let (sf, bits) = ch.pick(&TYPES);
            let pred = ch.pick(if sf == 3 { &[1u16, 2, 3] } else { &[1u16, 2] });
            let (be, planar) = (ch.flag(), ch.flag());
            let spp = ch.pick(&[1u16, 3]);
            let (w, h) = (4u32, 3u32);
            let (comp, ctx) = if ch.flag() {
                (ch.pick(&BYTEWISE), vec![])
            } else {
                let n = unrelated().len();
                let a = ch.choose(n);
                let mut v = vec![a];
                if t.thorough() {
                    v.push(ch.choose(n));
                }
                (ch.pick(&[Comp::None, Comp::Deflate]), v)
            };
            let c = Case { be, planar, w, h, spp, sf, bits, pred };
            ch.step((be, planar, spp, (sf, bits, pred), comp, &ctx));
            let v: Vec<u64> = (0..(w * h) as u64 * spp as u64).map(|i| mix(i + 9) & mask(bits)).collect();
            run_in(ch, &c, &v, applies(sf, pred), comp, ctx)
        }),
        body("sample sizes without a definition are errors", move |ch| {
            let bits = ch.choose(200) as u16 + 1;
            let pred = ch.pick(&[2u16, 3]);
            let sf = ch.choose(4) as u16 + 1;
            let planar = ch.flag();
            let spp = ch.choose(2) as u16 + 1;
            let be = ch.flag();
            let bad = if pred == 3 { ![16, 24, 32, 64].contains(&bits) } else { bits > 64 };
            if !bad {
                return Ok(());
            }
            // data of every plausible length
            let n = 2 * if planar { 1 } else { spp as usize };
            for len in [n * (bits as usize).div_ceil(8), n * (bits as usize).div_ceil(8).next_power_of_two(), n * 8, n, (n * bits as usize).div_ceil(8)] {
                let mut s = Spec::new(2, 1, spp, planar, sf, bits);
                s.pred = pred;
                s.be = be;
                let b = vec![vec![3u8; len]; if planar { spp as usize } else { 1 }];
                ch.note(|| format!("{s:?} {len} bytes"));
                ch.step((bits, pred, sf, planar, spp, be, len));
                let t = s.fetch(&b).map_err(|e| format!("fetch: {e}"))?;
                ensure!(REG.with(|g| t.decode(g)).is_err(), "predictor {pred} on {bits}-bit samples is no error");
            }
            Ok(())
        }),
    ];
    if t.thorough() {
        bodies.push(body("all triples of 8-bit samples", |ch| {
            let a = ch.choose(256) as u64;
            let b = ch.choose(256) as u64;
            for x in 0..256u64 {
                let c = Case { be: false, planar: false, w: 3, h: 1, spp: 1, sf: 1, bits: 8, pred: 2 };
                run(ch, &c, &[a, b, x], true)?;
            }
            ch.step((a, b));
            Ok(())
        }));
        bodies.push(body("all 16-bit pairs with one byte free each", |ch| {
            let a = ch.choose(1 << 16) as u64;
            let be = ch.flag();
            for b in (0..256u64).map(|x| x << 8 | 0x80).chain((0..256).map(|x| 0x7f00 | x)) {
                let c = Case { be, planar: false, w: 2, h: 1, spp: 1, sf: 1, bits: 16, pred: 2 };
                run(ch, &c, &[a, b], true)?;
            }
            ch.step((a, be));
            Ok(())
        }));
    }
    (
        bodies,
        about(
            format!("10 sample types x predictors none, 1, 2, 3 x both byte orders x both organisations: every tile of up to {maxel} samples over {na} extreme values (NaN payloads, -0, infinities, carries); all pairs of 8-bit samples; all 16-bit samples next to 4 others; all pairs and differences of values around the powers of two; 10 regular row patterns; every geometry up to {} x {} with up to {} samples; rows of up to {} samples and tiles of up to 70000 rows; sample sizes 1 to 200", t.sel(9, 17), t.sel(4, 6), t.sel(5, 9), t.sel(66_000, 140_001)),
            &["the writer's predictors in tiffw.rs follow TIFF 6.0 section 14 and TIFF technical note 3", "host is little-endian"],
        ),
    )
}
