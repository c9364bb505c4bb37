//! C15: decoders.
use std::sync::{Arc, Mutex};

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::tags::{Compression, PhotometricInterpretation};
use bytes::Bytes;

use super::c01::BYTEWISE;
use super::kit::{unrelated, Spec};
use super::{about, bits_of, check_array, expect_type, About};
use crate::codecs;
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{injected, injected_of};
use crate::tiffw::{mix, raw_bytes, Comp};
use crate::Tier;

#[derive(Clone, PartialEq, Debug)]
struct Call {
    who: u32,
    bytes: Vec<u8>,
    photometric: u16,
    tables: Option<Vec<u8>>,
    spp: u16,
    bits: u16,
    lerc: Option<Vec<u32>>,
}

/// A decoder that records its calls and answers with what the plan says.
#[derive(Debug)]
struct Rec {
    who: u32,
    log: Arc<Mutex<Vec<Call>>>,
    /// The n-th call (of all recorders together) fails.
    fail: Option<usize>,
    out: usize,
}
impl Decoder for Rec {
    fn decode_tile(
        &self,
        buffer: Bytes,
        p: PhotometricInterpretation,
        jpeg_tables: Option<&[u8]>,
        spp: u16,
        bits: u16,
        lerc: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        let mut l = self.log.lock().unwrap();
        let i = l.len();
        l.push(Call {
            who: self.who,
            bytes: buffer.to_vec(),
            photometric: p.to_u16(),
            tables: jpeg_tables.map(|t| t.to_vec()),
            spp,
            bits,
            lerc: lerc.map(|t| t.to_vec()),
        });
        if self.fail == Some(i) {
            return Err(injected(i));
        }
        Ok(answer(i, self.out))
    }
}
/// What the i-th call answers with.
fn answer(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|k| mix((i * 1000 + k) as u64) as u8).collect()
}

fn block(i: usize) -> Vec<u8> {
    (0..3 + i * 5 % 11).map(|k| (i * 16 + k) as u8 ^ (i >> 4) as u8).collect()
}

/// Decode a tile of the given parameters with recorders and compare the calls and the result.
fn record(ch: &mut Ch, s: &Spec, reg: &mut DecoderRegistry, log: &Arc<Mutex<Vec<Call>>>, fail: Option<usize>) -> Result<(), String> {
    let n = if s.planar { s.spp as usize } else { 1 };
    record_blocks(ch, s, reg, log, fail, (0..n).map(block).collect())
}

fn record_blocks(ch: &mut Ch, s: &Spec, reg: &mut DecoderRegistry, log: &Arc<Mutex<Vec<Call>>>, fail: Option<usize>, blocks: Vec<Vec<u8>>) -> Result<(), String> {
    let n = blocks.len();
    let per = (s.w * s.h) as usize * if s.planar { 1 } else { s.spp as usize };
    let bits = s.bits[0];
    let out = if bits == 1 { per.div_ceil(8) } else { per * (bits as usize / 8) };
    let code = Compression::from_u16_exhaustive(s.comp);
    reg.as_mut().insert(code, Box::new(Rec { who: s.comp as u32, log: log.clone(), fail, out }));
    log.lock().unwrap().clear();
    ch.note(|| format!("{s:?}, call {fail:?} fails"));
    ch.step(s);
    let tile = s.fetch(&blocks).map_err(|e| format!("fetch: {e}"))?;
    ensure!(tile.compression_method() == code, "the tile announces {:?}", tile.compression_method());
    ensure!(tile.photometric_interpretation().to_u16() == s.photometric, "the tile announces {:?}", tile.photometric_interpretation());
    ensure!(tile.jpeg_tables().map(|b| b.to_vec()) == s.jpeg, "the tile announces the tables {:?}", tile.jpeg_tables());
    let r = tile.decode(reg);
    let calls = log.lock().unwrap().clone();
    let want: Vec<Call> = (0..n)
        .map(|i| Call {
            who: s.comp as u32,
            bytes: blocks[i].clone(),
            photometric: s.photometric,
            tables: s.jpeg.clone(),
            spp: if s.planar { 1 } else { s.spp },
            bits,
            lerc: s.lerc.clone(),
        })
        .collect();
    match fail {
        None => {
            ensure!(calls == want, "the decoder was called with {calls:?} instead of {want:?}");
            let a = r.map_err(|e| format!("decode: {e}"))?;
            let flat: Vec<u8> = (0..n).flat_map(|i| answer(i, out)).collect();
            let elems: Vec<u64> = match bits {
                1 => (0..per * n).map(|i| (flat[i / 8] >> (7 - i % 8) & 1) as u64).collect(),
                _ => flat
                    .chunks(bits as usize / 8)
                    .map(|c| {
                        let mut b = [0u8; 8];
                        if s.be {
                            let k = c.len();
                            for (i, x) in c.iter().enumerate() {
                                b[k - 1 - i] = *x;
                            }
                        } else {
                            b[..c.len()].copy_from_slice(c);
                        }
                        u64::from_le_bytes(b)
                    })
                    .collect(),
            };
            if bits == 1 && n > 1 && per % 8 != 0 {
                return Ok(());
            }
            check_array(&a, expect_type(s.sf[0], bits).unwrap(), s.shape(), &elems, "the tile")
        }
        Some(k) => {
            ensure!(calls[..] == want[..calls.len().min(want.len())] && calls.len() > k, "the decoder was called with {calls:?}");
            match r {
                Ok(_) => Err("the decoder failed and the tile was decoded".into()),
                Err(e) => {
                    ensure!(injected_of(&e) == Some(k), "the error of the decoder was replaced: {e:?}");
                    Ok(())
                }
            }
        }
    }
}

const BUILTIN: [u16; 10] = [1, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001];

fn unsupported(e: &AsyncTiffError, code: u16) -> bool {
    use async_tiff::error::{TiffError, TiffUnsupportedError};
    matches!(e, AsyncTiffError::InternalTIFFError(TiffError::UnsupportedError(TiffUnsupportedError::UnsupportedCompression(c))) if c.to_u16() == code)
}

fn direct(code: u16, data: Vec<u8>, p: u16, tables: Option<&[u8]>, spp: u16, bits: u16, lerc: Option<&[u32]>) -> Result<Vec<u8>, String> {
    thread_local! {
        static REG: DecoderRegistry = DecoderRegistry::default();
    }
    REG.with(|r| {
        let d = r
            .as_ref()
            .get(&Compression::from_u16_exhaustive(code))
            .ok_or_else(|| format!("no decoder for compression {code}"))?;
        d.decode_tile(data.into(), PhotometricInterpretation::from_u16(p).unwrap(), tables, spp, bits, lerc)
            .map_err(|e| format!("compression {code}: {e}"))
    })
}

pub(super) fn encode(c: Comp, data: &[u8], level: usize) -> Vec<u8> {
    use std::io::Write;
    match c {
        Comp::None => data.to_vec(),
        Comp::Deflate | Comp::OldDeflate => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new([6, 0, 1, 9][level]));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Comp::Zstd => zstd::encode_all(data, [3, 1, -5, 12][level]).unwrap(),
        Comp::Lzma => codecs::xz(data),
        Comp::Lzw => codecs::lzw(data),
        _ => unreachable!(),
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every compression code: its own decoder and no other", move |ch| {
            let hi = ch.choose(256) as u16;
            let planar = ch.flag();
            for lo in 0..256u16 {
                let code = hi << 8 | lo;
                let log = Arc::new(Mutex::new(vec![]));
                let mut reg = DecoderRegistry::empty();
                for other in [code.wrapping_add(1), code ^ 0x8000, 1, 8] {
                    if other != code {
                        reg.as_mut().insert(Compression::from_u16_exhaustive(other), Box::new(Rec { who: other as u32, log: log.clone(), fail: None, out: 4 }));
                    }
                }
                let mut s = Spec::new(2, 1, 2, planar, 1, 8);
                s.comp = code;
                record(ch, &s, &mut reg, &log, None)?;
                // without it: an error that names the code, and no call
                reg.as_mut().remove(&Compression::from_u16_exhaustive(code));
                log.lock().unwrap().clear();
                let tile = s.fetch(&[vec![0; 4], vec![0; 4]][..1 + planar as usize]).map_err(|e| format!("fetch: {e}"))?;
                match tile.decode(&reg) {
                    Ok(_) => return Err(format!("a tile of compression {code} was decoded without its decoder")),
                    Err(e) => ensure!(unsupported(&e, code), "missing decoder of {code}: {e:?}"),
                }
                ensure!(log.lock().unwrap().is_empty(), "another decoder was called for {code}");
            }
            Ok(())
        }),
        body("every code against the default registry", move |ch| {
            let code = ch.choose(1 << 16) as u16;
            ch.step(code);
            let mut s = Spec::new(2, 1, 1, false, 1, 8);
            s.comp = code;
            let reg = DecoderRegistry::default();
            let known = BUILTIN.contains(&code);
            ensure!(reg.as_ref().contains_key(&Compression::from_u16_exhaustive(code)) == known, "default decoder for {code}");
            if !known {
                let tile = s.fetch(&[vec![0; 2]]).map_err(|e| format!("fetch: {e}"))?;
                match tile.decode(&reg) {
                    Ok(_) => return Err(format!("a tile of the unknown compression {code} was decoded")),
                    Err(e) => ensure!(unsupported(&e, code), "compression {code}: {e:?}"),
                }
            }
            let tile = s.fetch(&[vec![0; 2]]).map_err(|e| format!("fetch: {e}"))?;
            match tile.decode(&DecoderRegistry::empty()) {
                Ok(_) => Err(format!("decoded by an empty registry: {code}")),
                Err(e) => {
                    ensure!(unsupported(&e, code), "compression {code}: {e:?}");
                    Ok(())
                }
            }
        }),
        body("every combination of parameters", move |ch| {
            let planar = ch.flag();
            let be = ch.flag();
            let spp = ch.choose(t.sel(4, 6)) as u16 + 1;
            let (sf, bits) = ch.pick(&[(1u16, 8u16), (1, 16), (2, 32), (3, 64), (1, 1), (3, 32)]);
            let photometric = ch.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8]);
            let jpeg = ch.pick(&[None, Some(vec![]), Some(vec![0xffu8, 0xd8, 1, 2, 0xff, 0xd9])]);
            let lerc = ch.pick(&[None, Some(vec![4u32]), Some(vec![4, 2]), Some(vec![u32::MAX, 0, 7])]);
            let code = ch.pick(&[1u16, 7, 34887, 65001]);
            let over = ch.flag();
            let fail = match ch.choose(3) {
                0 => None,
                1 => Some(0),
                _ => Some(if planar { spp as usize - 1 } else { 0 }),
            };
            let mut s = Spec::new(3, 2, spp, planar, sf, bits);
            (s.be, s.photometric, s.jpeg, s.lerc, s.comp) = (be, photometric, jpeg, lerc, code);
            let log = Arc::new(Mutex::new(vec![]));
            let mut reg = if over { DecoderRegistry::default() } else { DecoderRegistry::empty() };
            record(ch, &s, &mut reg, &log, fail)
        }),
        body("a failure at every band", move |ch| {
            let spp = ch.choose(t.sel(6, 12)) as u16 + 1;
            let k = ch.choose(spp as usize + 1);
            let bits = ch.pick(&[8u16, 16]);
            let s = Spec::new(2, 2, spp, true, 1, bits);
            let log = Arc::new(Mutex::new(vec![]));
            record(ch, &s, &mut DecoderRegistry::empty(), &log, (k < spp as usize).then_some(k))
        }),
        body("stored bytes of every kind, unrelated tags", move |ch| {
            let planar = ch.flag();
            let spp = ch.choose(3) as u16 + 1;
            let code = ch.pick(&[1u16, 5, 7, 8, 34712, 34887, 50000, 50001, 65001]);
            let mut s = Spec::new(2, 2, spp, planar, 1, 8);
            s.comp = code;
            let n = if planar { spp as usize } else { 1 };
            let mut blocks: Vec<Vec<u8>> = (0..n).map(block).collect();
            if ch.flag() {
                let k = ch.choose(n);
                blocks[k] = ch.pick(&[
                    vec![],
                    vec![0],
                    vec![0; 4],
                    vec![0; 16],
                    vec![0xff; 5],
                    vec![0xff, 0xd8, 0xff, 0xd9],
                    vec![0x78, 0x9c, 3, 0, 0, 0, 0, 1],
                    vec![0x28, 0xb5, 0x2f, 0xfd, 0, 0],
                    b"RIFF\x04\0\0\0WEBP".to_vec(),
                    b"Lerc2 ".to_vec(),
                    vec![0xfd, b'7', b'z', b'X', b'Z', 0],
                    vec![0xff, 0x4f, 0xff, 0x51],
                    vec![7; 70_000],
                ]);
            } else {
                s.ctx = vec![ch.choose(unrelated().iter().filter(|x| ![262, 347, 50674].contains(&x.tag)).count())];
                let k: Vec<usize> = unrelated().iter().enumerate().filter(|x| ![262, 347, 50674].contains(&x.1.tag)).map(|x| x.0).collect();
                s.ctx[0] = k[s.ctx[0]];
            }
            let log = Arc::new(Mutex::new(vec![]));
            record_blocks(ch, &s, &mut DecoderRegistry::default(), &log, None, blocks).map_err(|e| e.chars().take(600).collect())
        }),
        body("many bands and samples", move |ch| {
            let spp = ch.pick(&[7u16, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4097]);
            let planar = ch.flag();
            let (sf, bits) = ch.pick(&[(1u16, 8u16), (1, 16), (3, 32)]);
            let be = ch.flag();
            let mut s = Spec::new(2, 1, spp, planar, sf, bits);
            s.be = be;
            (s.comp, s.lerc) = (34887, Some(vec![4, 1]));
            let k = if planar { ch.pick(&[None, Some(0), Some(7), Some(8), Some(spp as usize - 1)]) } else { None };
            if k.is_some_and(|k| k >= spp as usize) {
                return Ok(());
            }
            let log = Arc::new(Mutex::new(vec![]));
            record(ch, &s, &mut DecoderRegistry::empty(), &log, k).map_err(|e| e.chars().take(600).collect())
        }),
        body("user decoders replace built-in ones and leave the others", move |ch| {
            let i = ch.choose(BUILTIN.len());
            let planar = ch.flag();
            let code = BUILTIN[i];
            let log = Arc::new(Mutex::new(vec![]));
            let mut reg = DecoderRegistry::default();
            let mut s = Spec::new(2, 2, 2, planar, 1, 8);
            s.comp = code;
            record(ch, &s, &mut reg, &log, None)?;
            log.lock().unwrap().clear();
            for c in BYTEWISE {
                if c.code() == code {
                    continue;
                }
                let mut s = Spec::new(2, 2, 1, false, 1, 8);
                s.comp = c.code();
                let tile = s.fetch(&[encode(c, &[9, 8, 7, 6], 0)]).map_err(|e| format!("fetch: {e}"))?;
                let a = tile.decode(&reg).map_err(|e| format!("decode: {e}"))?;
                check_array(&a, "u8", [2, 2, 1], &[9, 8, 7, 6], "another codec")?;
            }
            ensure!(log.lock().unwrap().is_empty(), "the user's decoder was called for another compression");
            Ok(())
        }),
        body("lossless codecs: every short byte string", move |ch| {
            let c = ch.pick(&BYTEWISE);
            let level = ch.choose(4);
            if level > 0 && !matches!(c, Comp::Deflate | Comp::Zstd) {
                return Ok(());
            }
            let n = ch.choose(t.sel(6, 8));
            let data: Vec<u8> = (0..n).map(|_| ch.pick(&[0u8, 1, 0x80, 0xff])).collect();
            if c == Comp::Lzma && n > 4 && !t.thorough() {
                return Ok(());
            }
            let enc = encode(c, &data, level);
            ch.note(|| format!("{c:?} of {data:x?}: {enc:x?}"));
            ch.step((c, level, &data));
            let got = direct(c.code(), enc, 1, None, 1, 8, None)?;
            ensure!(got == data, "{c:?} of {data:x?} was decoded to {got:x?}");
            ch.observe(got);
            Ok(())
        }),
        body("lossless codecs: the same data in several blocks or frames", move |ch| {
            let n = ch.pick(&[0usize, 1, 5, 300, 70_000][..t.sel(4, 5)]);
            let data: Vec<u8> = (0..n).map(|i| (mix(i as u64 / 3) % 5) as u8 * 50).collect();
            // every way of cutting the short ones in up to 3 parts
            let cuts: Vec<usize> = if n < 10 { (0..=n).collect() } else { vec![0, 1, n / 3, n - 1, n] };
            let a = ch.pick(&cuts);
            let b = ch.pick(&cuts);
            let (a, b) = (a.min(b), a.max(b));
            let parts = [&data[..a], &data[a..b], &data[b..]];
            let k = ch.choose(4);
            let (code, enc) = match k {
                0 => (8, codecs::deflate_parts(&parts)),
                1 => (5, codecs::lzw_parts(&parts)),
                _ => (50000, codecs::zstd_parts(&parts, k == 3)),
            };
            ch.note(|| format!("compression {code}, {n} bytes cut at {a} and {b}"));
            ch.step((k, n, a, b));
            let got = direct(code, enc, 1, None, 1, 8, None)?;
            ensure!(got == data, "compression {code}: {n} bytes in parts cut at {a} and {b} were decoded to {} bytes", got.len());
            ch.observe(got.len());
            Ok(())
        }),
        body("LERC: the inner stream in several blocks or frames", move |ch| {
            let (w, h) = (16usize, 3usize);
            let raw: Vec<u8> = (0..w * h).map(|i| mix(i as u64) as u8).collect();
            let blob = codecs::lerc(&raw, 1, 8, w, h, 1, 0);
            let a = ch.choose(blob.len() + 1);
            let k = ch.choose(3) as u32;
            let parts = [&blob[..a], &blob[a..]];
            let enc = if k == 0 { codecs::deflate_parts(&parts) } else { codecs::zstd_parts(&parts, k == 2) };
            ch.step((a, k));
            let got = direct(34887, enc, 1, None, 1, 8, Some(&[4, k.min(1) + 1]))?;
            ensure!(got == raw, "LERC in parts cut at {a} was decoded wrongly");
            Ok(())
        }),
        body("lossless codecs: long data of every pattern", move |ch| {
            let c = ch.pick(&BYTEWISE);
            let n = ch.pick(&[100usize, 255, 256, 257, 1023, 1024, 4093, 4094, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 300_000][..t.sel(14, 16)]);
            let p = ch.choose(6);
            let level = ch.choose(4);
            if level > 0 && !matches!(c, Comp::Deflate | Comp::Zstd) {
                return Ok(());
            }
            let data: Vec<u8> = (0..n)
                .map(|i| match p {
                    0 => 0,
                    1 => i as u8,
                    2 => mix(i as u64) as u8,
                    3 => (i / 7) as u8 ^ (i % 3) as u8,
                    4 => (mix(i as u64 / 50) % 4) as u8,
                    _ => 255 - (i * i >> 5) as u8,
                })
                .collect();
            let enc = encode(c, &data, level);
            ch.note(|| format!("{c:?} pattern {p} x {n}"));
            ch.step((c, n, p, level));
            let got = direct(c.code(), enc, 1, None, 1, 8, None)?;
            ensure!(got == data, "{c:?}: pattern {p} of {n} bytes was decoded wrongly");
            Ok(())
        }),
        body("lossless codecs: megabytes", move |ch| {
            let c = ch.pick(&BYTEWISE);
            let n = ch.pick(&[(1usize << 20) + 1, (4 << 20) + 3, (17 << 20) + 5, (64 << 20) + 1][..t.sel(3, 4)]);
            let p = ch.choose(3);
            let data: Vec<u8> = (0..n)
                .map(|i| match p {
                    0 => (i >> 18) as u8,
                    1 => mix(i as u64) as u8,
                    _ => (mix(i as u64 / 50) % 4) as u8,
                })
                .collect();
            let enc = encode(c, &data, if c == Comp::Zstd { 1 } else { 0 });
            ch.note(|| format!("{c:?} pattern {p} x {n}"));
            ch.step((c, n, p));
            let got = direct(c.code(), enc, 1, None, 1, 8, None)?;
            ensure!(got == data, "{c:?}: pattern {p} of {n} bytes was decoded wrongly");
            Ok(())
        }),
        body("image codecs: large tiles", move |ch| {
            let k = ch.choose(9);
            let v = |i: usize| mix(i as u64);
            ch.step(k);
            match k {
                0..=3 => {
                    // LERC
                    let (sf, bits, w, h, spp, inner) = [(3u16, 32u16, 700usize, 700usize, 1usize, 0u32), (1, 8, 1200, 900, 3, 1), (3, 64, 400, 500, 2, 2), (2, 16, 70_000, 10, 1, 0)][k];
                    let vals: Vec<u64> = (0..w * h * spp)
                        .map(|i| match (sf, bits) {
                            (3, 32) => ((v(i) % 100_000) as f32).to_bits() as u64,
                            (3, _) => ((v(i) % 100_000) as f64).to_bits(),
                            _ => v(i) & ((1 << bits) - 1),
                        })
                        .collect();
                    let raw = raw_bytes(&vals, bits, cfg!(target_endian = "big"));
                    let enc = codecs::lerc(&raw, sf, bits, w, h, spp, inner);
                    let got = direct(34887, enc, 1, None, spp as u16, bits, Some(&[4, inner]))?;
                    ensure!(got == raw, "LERC sf {sf} bits {bits} {w} x {h} x {spp} was decoded wrongly");
                }
                4 | 5 | 6 => {
                    let (w, h) = [(600u32, 500u32), (300, 700), (16_000, 20)][k - 4];
                    let alpha = k == 5;
                    let data: Vec<u8> = (0..(w * h * if alpha { 4 } else { 3 }) as usize).map(|i| if alpha && i % 4 == 3 { 100 } else { v(i / 9) as u8 }).collect();
                    let enc = codecs::webp(&data, w, h, alpha);
                    let spp = if k == 4 { 3 } else { 4 };
                    let got = direct(50001, enc, 2, None, spp, 8, None)?;
                    let want: Vec<u8> = if k == 6 { data.chunks(3).flat_map(|c| [c[0], c[1], c[2], 255]).collect() } else { data };
                    ensure!(got == want, "WebP {w} x {h} x {spp} was decoded wrongly");
                }
                7 => {
                    let (w, h) = (300u32, 260u32);
                    let at = |c: u32, y: u32, x: u32| -> i32 { (v(((c * 1000 + y) * 1000 + x) as usize) & 0xffff) as i32 };
                    let enc = codecs::j2k(w, h, 1, 16, at);
                    let got = direct(34712, enc, 1, None, 1, 16, None)?;
                    let vals: Vec<u64> = (0..h).flat_map(|y| (0..w).map(move |x| at(0, y, x) as u64)).collect();
                    ensure!(got == raw_bytes(&vals, 16, cfg!(target_endian = "big")), "JPEG 2000 {w} x {h} was decoded wrongly");
                }
                _ => {
                    let (w, h) = (1000u16, 800u16);
                    let px = |c: u8, bx: u32, by: u32| v(((c as u32 * 500 + by) * 500 + bx) as usize) as u8;
                    let enc = codecs::jpeg(w, h, 3, false, px);
                    let got = direct(7, enc, 2, Some(&codecs::jpeg_tables()), 3, 8, None)?;
                    ensure!(got.len() == w as usize * h as usize * 3, "{} bytes", got.len());
                    for (i, g) in got.iter().enumerate() {
                        let (c, x, y) = (i % 3, i / 3 % w as usize, i / 3 / w as usize);
                        let want = px(c as u8, x as u32 / 8, y as u32 / 8);
                        ensure!(*g == want, "JPEG pixel {x},{y} component {c}: {g} instead of {want}");
                    }
                }
            }
            Ok(())
        }),
        body("LZMA: streams of liblzma", move |ch| {
            let (delta, hex) = ch.pick(&codecs::XZ);
            let enc: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            let want: Vec<u8> = (0..64u32).map(|i| (i * i * 7 + i / 3) as u8).collect();
            ch.note(|| format!("delta filter of distance {delta}, stream {hex}"));
            ch.step(hex);
            let got = direct(34925, enc, 1, None, 1, 8, None)?;
            ensure!(got == want, "a stream of liblzma with a delta filter of distance {delta} was decoded wrongly");
            Ok(())
        }),
        body("LZMA: presets, checks, filters and blocks", move |ch| {
            let preset = ch.pick(if t.thorough() { &[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 6] });
            let check = ch.choose(4);
            let delta = ch.pick(&[0u32, 1, 2, 3, 4, 6, 8, 16, 255, 256]);
            // blocks are at least as long as the dictionary
            let blocks = preset == 0 && ch.flag();
            let n = ch.pick(if blocks { &[300_000usize, 600_000] } else { &[0usize, 1, 7, 64, 1000, 70_000] });
            let kind = ch.choose(3);
            let data: Vec<u8> = (0..n as u64)
                .map(|i| match kind {
                    0 => mix(i) as u8,
                    1 => (i / 5) as u8,
                    _ => 0,
                })
                .collect();
            let enc = codecs::xz_as(&data, preset, check, delta, if blocks { 262_144 } else { 0 });
            ch.note(|| format!("LZMA preset {preset} check {check} delta {delta} blocks {blocks}: {n} bytes"));
            ch.step((preset, check, delta, blocks, n, kind));
            let got = direct(34925, enc, 1, None, 1, 8, None)?;
            ensure!(got == data, "{n} bytes with preset {preset}, check {check}, delta filter {delta} were decoded wrongly");
            Ok(())
        }),
        body("JPEG tables of any size", move |ch| {
            // comments among the tables
            let n = ch.pick(&[0usize, 1, 100, 255, 256, 400, 500, 1000, 4096, 32_768, 65_000]);
            let times = ch.choose(3) + 1;
            let first = ch.flag();
            let plain = codecs::jpeg_tables();
            let mut com = vec![];
            for k in 0..times {
                com.extend([0xff, 0xfe]);
                com.extend((n as u16 + 2).to_be_bytes());
                com.extend((0..n).map(|i| (i + k) as u8 & 0x7f));
            }
            let mut tb = plain.clone();
            let at = if first { 2 } else { tb.len() - 2 };
            tb.splice(at..at, com);
            let px = |_: u8, bx: u32, by: u32| (bx * 50 + by * 90 + 3) as u8;
            let enc = codecs::jpeg(20, 12, 1, false, px);
            ch.note(|| format!("JPEG tables of {} bytes", tb.len()));
            ch.step((n, times, first));
            let got = direct(7, enc, 1, Some(&tb), 1, 8, None).map_err(|e| format!("tables of {} bytes: {e}", tb.len()))?;
            let want: Vec<u8> = (0..12).flat_map(|y| (0..20).map(move |x| px(0, x / 8, y / 8))).collect();
            ensure!(got == want, "tables of {} bytes: decoded wrongly", tb.len());
            Ok(())
        }),
        body("JPEG: tables, colours and sizes", move |ch| {
            let (w, h) = (ch.pick(&[1u16, 7, 8, 9, 16, 17, 40]), ch.pick(&[1u16, 8, 13, 24]));
            let tables = ch.flag();
            // with one component: a band of a planar image
            let (p, comps) = ch.pick(&[(0u16, 1u8), (1, 1), (4, 1), (2, 3), (6, 3), (2, 1), (5, 1), (5, 4), (0, 3), (1, 3), (1, 4), (0, 2), (1, 2), (2, 4), (2, 2)]);
            let seed = ch.choose(t.sel(4, 20)) as u64;
            let px = |c: u8, bx: u32, by: u32| -> u8 {
                let k = mix(seed * 7919 + c as u64 * 131 + bx as u64 * 17 + by as u64);
                match k & 3 {
                    0 => 0,
                    1 => 255,
                    _ => (k >> 8) as u8,
                }
            };
            let enc = codecs::jpeg(w, h, comps, !tables, px);
            let tb = codecs::jpeg_tables();
            ch.note(|| format!("JPEG {w} x {h} x {comps} photometric {p} tables {tables}"));
            ch.step((w, h, tables, p, seed));
            let got = match direct(7, enc, p, tables.then_some(&tb[..]), comps as u16, 8, None) {
                // the JPEG library knows no image of two components
                Err(_) if comps == 2 => return Ok(()),
                r => r?,
            };
            ensure!(got.len() == w as usize * h as usize * comps as usize, "{} bytes", got.len());
            for y in 0..h as usize {
                for x in 0..w as usize {
                    let at = (y * w as usize + x) * comps as usize;
                    let s: Vec<f64> = (0..comps).map(|c| px(c, x as u32 / 8, y as u32 / 8) as f64).collect();
                    let want: Vec<f64> = if p == 6 {
                        let (yy, cb, cr) = (s[0], s[1] - 128.0, s[2] - 128.0);
                        vec![yy + 1.402 * cr, yy - 0.344136 * cb - 0.714136 * cr, yy + 1.772 * cb]
                    } else {
                        s
                    };
                    for (k, v) in want.iter().enumerate() {
                        let v = v.clamp(0.0, 255.0);
                        let tol = if p == 6 { 2.0 } else { 0.0 };
                        ensure!((got[at + k] as f64 - v).abs() <= tol, "pixel {x},{y} component {k}: {} instead of {v}", got[at + k]);
                    }
                }
            }
            Ok(())
        }),
        body("JPEG: components of different resolutions", move |ch| {
            let (w, h) = (ch.pick(&[1u16, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40]), ch.pick(&[1u16, 2, 8, 13, 16, 17, 24]));
            let tables = ch.flag();
            let (p, comps) = ch.pick(&[(6u16, 3usize), (2, 3), (1, 3), (0, 3), (5, 4), (1, 4), (2, 4)]);
            let first = ch.pick(&[(2u32, 1u32), (1, 2), (2, 2)]);
            // the other components are all coarse; the last of four may be fine as well
            let mut factors = vec![first; comps];
            for f in factors.iter_mut().skip(1).take(2) {
                *f = (1, 1);
            }
            if comps == 4 && ch.flag() {
                factors[3] = (1, 1);
            }
            let seed = ch.choose(t.sel(2, 8)) as u64;
            // only the components of full resolution vary over the image: how the others are
            // interpolated is up to the JPEG library
            let px = |c: u8, bx: u32, by: u32| -> u8 {
                let fine = factors[c as usize] == first;
                (mix(seed * 7919 + c as u64 * 131 + if fine { bx as u64 * 17 + by as u64 } else { 0 }) >> 8) as u8
            };
            let enc = codecs::jpeg_sampled(w, h, &factors, !tables, px);
            let tb = codecs::jpeg_tables();
            ch.note(|| format!("JPEG {w} x {h} photometric {p} factors {factors:?} tables {tables}"));
            ch.step((w, h, tables, p, &factors, seed));
            let got = direct(7, enc, p, tables.then_some(&tb[..]), comps as u16, 8, None)?;
            ensure!(got.len() == w as usize * h as usize * comps, "{} bytes", got.len());
            for (i, g) in got.iter().enumerate() {
                let (k, x, y) = (i % comps, i / comps % w as usize, i / comps / w as usize);
                let s: Vec<f64> = (0..comps as u8).map(|c| px(c, x as u32 / 8, y as u32 / 8) as f64).collect();
                let want = match (p, k) {
                    (6, 0) => s[0] + 1.402 * (s[2] - 128.0),
                    (6, 1) => s[0] - 0.344136 * (s[1] - 128.0) - 0.714136 * (s[2] - 128.0),
                    (6, _) => s[0] + 1.772 * (s[1] - 128.0),
                    _ => s[k],
                };
                let tol = if p == 6 { 2.0 } else { 0.0 };
                ensure!((*g as f64 - want.clamp(0.0, 255.0)).abs() <= tol, "pixel {x},{y} component {k}: {g} instead of {want}");
            }
            Ok(())
        }),
        body("JPEG with interpretations it is not defined for", move |ch| {
            let p = ch.pick(&[3u16, 8]);
            let enc = codecs::jpeg(8, 8, 1, true, |_, _, _| 7);
            ch.step(p);
            ensure!(direct(7, enc, p, None, 1, 8, None).is_err(), "interpretation {p} was decoded");
            Ok(())
        }),
        body("LERC: every type, inner compression and parameter list", move |ch| {
            let (sf, bits) = ch.pick(&[(1u16, 8u16), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (3, 64)]);
            let inner = ch.choose(3) as u32;
            let spp = ch.choose(4) + 1;
            let (w, h) = (ch.pick(&[1usize, 5, 16]), ch.pick(&[1usize, 3, 16]));
            let version = ch.pick(&[4u32, 2, 6]);
            let list = match (inner, ch.choose(3)) {
                (0, 0) => None,
                (0, 1) => Some(vec![version]),
                (i, 2) => Some(vec![version, i, 99]),
                (i, _) => Some(vec![version, i]),
            };
            let n = w * h * spp;
            let vals: Vec<u64> = (0..n as u64)
                .map(|i| {
                    let k = mix(i + 5);
                    match (sf, bits) {
                        (3, 32) => ((k as i32 as f32) / 16.0).to_bits() as u64,
                        (3, _) => ((k as i32 as f64) / 16.0).to_bits(),
                        _ => k & ((1u64 << bits) - 1),
                    }
                })
                .collect();
            let raw = raw_bytes(&vals, bits, cfg!(target_endian = "big"));
            let enc = codecs::lerc(&raw, sf, bits, w, h, spp, inner);
            ch.note(|| format!("LERC sf {sf} bits {bits} {w} x {h} x {spp}, parameters {list:?}"));
            ch.step((sf, bits, inner, spp, w, h, &list));
            let got = direct(34887, enc, 1, None, spp as u16, bits, list.as_deref())?;
            ensure!(got == raw, "LERC sf {sf} bits {bits} {w} x {h} x {spp} {list:?} was decoded wrongly");
            Ok(())
        }),
        body("LERC: every mask of the valid pixels", move |ch| {
            // LERC has no NaN: writers (libtiff) mask such pixels out, and readers give NaN back;
            // the other types keep the samples of valid pixels, the others are not defined
            let (sf, bits) = ch.pick(&[(3u16, 32u16), (3, 64), (1, 8), (2, 16)]);
            let inner = ch.choose(3) as u32;
            let spp = ch.choose(3) + 1;
            let (w, h) = ch.pick(&[(1usize, 1usize), (3, 2), (2, 4), (16, 16)]);
            let n = w * h;
            let mask: Vec<u8> = if n <= 8 {
                let m = ch.choose(1 << n);
                (0..n).map(|i| (m >> i & 1) as u8).collect()
            } else {
                let m = ch.choose(n + 2);
                (0..n).map(|i| (i != m && m <= n) as u8).collect()
            };
            let vals: Vec<u64> = (0..(n * spp) as u64)
                .map(|i| match (sf, bits) {
                    (3, 32) => ((mix(i + 5) as i32 as f32) / 16.0).to_bits() as u64,
                    (3, _) => ((mix(i + 5) as i32 as f64) / 16.0).to_bits(),
                    _ => mix(i + 5) & ((1u64 << bits) - 1),
                })
                .collect();
            let raw = raw_bytes(&vals, bits, cfg!(target_endian = "big"));
            let enc = codecs::lerc_masked(&raw, Some(&mask), sf, bits, w, h, spp, inner);
            ch.note(|| format!("LERC sf {sf} bits {bits} {w} x {h} x {spp} mask {mask:?}"));
            ch.step((sf, bits, inner, spp, w, h, &mask));
            let got = direct(34887, enc, 1, None, spp as u16, bits, Some(&[4, inner]))?;
            ensure!(got.len() == raw.len(), "{} bytes instead of {}", got.len(), raw.len());
            let b = bits as usize / 8;
            for (i, (g, r)) in got.chunks(b).zip(raw.chunks(b)).enumerate() {
                let nan = match b {
                    4 => f32::from_ne_bytes(g.try_into().unwrap()).is_nan(),
                    8 => f64::from_ne_bytes(g.try_into().unwrap()).is_nan(),
                    _ => true,
                };
                if mask[i / spp] != 0 {
                    ensure!(g == r, "sample {i} of a valid pixel was decoded wrongly: {g:?} instead of {r:?}");
                } else {
                    ensure!(nan, "sample {i} of a masked pixel is {g:?}, not NaN");
                }
            }
            Ok(())
        }),
        body("WebP: with and without alpha", move |ch| {
            let (w, h) = (ch.pick(&[1u32, 2, 7, 16, 33]), ch.pick(&[1u32, 5, 16]));
            let how = ch.choose(3);
            let seed = ch.choose(t.sel(3, 10)) as u64;
            let comps = if how == 1 { 4 } else { 3 };
            let data: Vec<u8> = (0..w * h * comps)
                .map(|i| {
                    let k = mix(i as u64 + seed * 10_007);
                    if how == 1 && i % 4 == 3 {
                        (k as u8) | 1
                    } else {
                        k as u8
                    }
                })
                .collect();
            let enc = codecs::webp(&data, w, h, how == 1);
            let spp = if how == 0 { 3 } else { 4 };
            ch.note(|| format!("WebP {w} x {h}, {comps} stored, {spp} announced"));
            ch.step((w, h, how, seed));
            let got = direct(50001, enc, 2, None, spp, 8, None)?;
            let mut want = data;
            if how == 2 {
                want = want.chunks(3).flat_map(|c| [c[0], c[1], c[2], 255]).collect();
            }
            if how == 1 && want.chunks(4).all(|c| c[3] == 255) {
                return Ok(());
            }
            ensure!(got == want, "WebP {w} x {h} ({how}) was decoded wrongly");
            Ok(())
        }),
        body("JPEG 2000: sizes, depths, signs and components", move |ch| {
            let bits = ch.pick(&[8u32, 16, 1, 2, 4, 7, 9, 10, 12, 15]);
            let all = bits == 8 || bits == 16;
            let (w, h) = (ch.pick(if all { &[1u32, 8, 16, 31] } else { &[1, 8] }), ch.pick(if all { &[1u32, 7, 16] } else { &[5] }));
            let spp = ch.choose(5) as u32 + 1;
            let signed = ch.flag();
            let seed = ch.choose(t.sel(2, 6)) as u64;
            // the samples of a stream of fewer bits are stored in the next bigger container
            let container = if bits <= 8 { 8 } else { 16 };
            let at = |c: u32, y: u32, x: u32| -> i32 {
                let v = (mix(seed * 31 + ((c * 100 + y) * 100 + x) as u64) & ((1 << bits) - 1)) as i32;
                v - if signed { 1 << (bits - 1) } else { 0 }
            };
            let enc = codecs::j2k_signed(w, h, spp, bits, signed, at);
            ch.note(|| format!("JPEG 2000 {w} x {h} x {spp}, {bits} bits, signed: {signed}"));
            ch.step((w, h, bits, spp, signed, seed));
            let got = direct(34712, enc, if spp == 3 { 2 } else { 1 }, None, spp as u16, container, None)?;
            let mut vals = vec![];
            for y in 0..h {
                for x in 0..w {
                    for c in 0..spp {
                        vals.push(at(c, y, x) as u64 & ((1 << container) - 1));
                    }
                }
            }
            ensure!(got == raw_bytes(&vals, container, cfg!(target_endian = "big")), "JPEG 2000 {w} x {h} x {spp}, {bits} bits, signed: {signed}: decoded wrongly");
            Ok(())
        }),
        body("tiles of the same file under several codecs, in every order", move |ch| {
            // decoders keep no state: decoding tiles in any order gives the same arrays
            let order: Vec<usize> = (0..3).map(|_| ch.choose(6)).collect();
            let reg = DecoderRegistry::default();
            ch.step(&order);
            for k in order {
                let c = BYTEWISE[k];
                let mut s = Spec::new(4, 2, 1, false, 1, 8);
                s.comp = c.code();
                let data: Vec<u8> = (0..8).map(|i| (i * 31 + k) as u8).collect();
                let a = s.fetch(&[encode(c, &data, 0)])?.decode(&reg).map_err(|e| format!("decode: {e}"))?;
                ensure!(bits_of(a.data()).1 == data.iter().map(|x| *x as u64).collect::<Vec<_>>(), "{c:?} in order");
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            format!("all 65536 compression codes, both organisations; 2 x 2 x {0} x 6 x 8 x 3 x 4 x 4 x 2 x 3 parameter combinations with recording decoders; a failure at every band; every byte string of up to {1} bytes over 4 values through 6 lossless codecs (4 encoder levels), 6 patterns of up to {2} bytes, 3 of up to {3} MiB; JPEG tables of up to 195 kB; tiles of up to 4 MB in the image codecs; JPEG, LERC, WebP and JPEG 2000 over sizes, types and tables", t.sel(4, 6), t.sel(5, 7), t.sel(65536, 300000), t.sel(17, 64)),
            &["encoders are independent of the library's decoders except WebP and LERC (same C library)", "bit depths are equal in all samples"],
        ),
    )
}
