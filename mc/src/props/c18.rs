//! C18: corrupt tiles.
use std::sync::Arc;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::ndarray::NdArray;

use super::kit::Spec;
use super::{about, bits_of, type_name, About};
use crate::alloc;
use crate::codecs;
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::tiffw::{mix, Comp, Fmt, Img};
use crate::Tier;

thread_local! {
    static REG: DecoderRegistry = DecoderRegistry::default();
}

/// Decode: an error or an array that is what it says it is.
fn attempt(ch: &mut Ch, s: &Spec, blocks: &[Vec<u8>], cap: Option<usize>) -> Result<bool, String> {
    let inner = s.lerc.as_ref().and_then(|l| l.get(1).copied());
    if blocks.iter().any(|b| codecs::announced(s.comp, b, inner) > 32 << 20) {
        // a stream that announces a big image is a decompression bomb, not a corruption
        ch.observe("bomb");
        return Ok(false);
    }
    let tile = match s.fetch(blocks) {
        Ok(t) => t,
        Err(e) => {
            ch.step(&e);
            return Ok(false);
        }
    };
    let r = REG.with(|reg| tile.decode(reg));
    let ok = match r {
        Err(e) => {
            let e = e.to_string();
            ch.step((s.comp, &e));
            ch.observe(e);
            false
        }
        Ok(a) => {
            let (name, got) = bits_of(a.data());
            ensure!(a.shape() == s.shape(), "shape {:?} instead of {:?}", a.shape(), s.shape());
            let n: Option<usize> = a.shape().iter().try_fold(1usize, |p, k| p.checked_mul(*k));
            ensure!(n == Some(got.len()), "{} elements for the shape {:?}", got.len(), a.shape());
            ensure!(a.data_type().is_none() || type_name(a.data_type()) == name, "{:?} elements announced as {:?}", name, a.data_type());
            ch.step((s.comp, name, &got));
            ch.observe(&got);
            let known = a.data_type().is_some();
            ensure!(NdArray::try_from(a).is_ok() == known, "conversion to an n-dimensional array");
            true
        }
    };
    if let Some(cap) = cap {
        ensure!(alloc::peak() <= cap, "an allocation of {} bytes for {} bytes of data", alloc::peak(), blocks.iter().map(|b| b.len()).sum::<usize>());
    }
    Ok(ok)
}

/// A valid tile.
#[derive(Clone, Debug)]
struct Case {
    spec: Spec,
    blocks: Vec<Vec<u8>>,
    /// Allocation bound, where the codec's own library does not allocate what a header says.
    cap: Option<usize>,
}

const SMALL: usize = 16 << 20;

fn case(comp: Comp, w: u32, h: u32, spp: u16, planar: bool, sf: u16, bits: u16, pred: u16, be: bool) -> Case {
    let img = Img {
        fmt: Fmt { be, big: false },
        w,
        h,
        tw: w,
        th: h,
        spp,
        planar,
        sf,
        bits,
        comp,
        pred,
        seed: 11,
    };
    let mut spec = Spec::new(w, h, spp, planar, sf, bits);
    spec.be = be;
    spec.comp = comp.code();
    spec.pred = pred;
    spec.photometric = img.photometric();
    if let Comp::Jpeg(true) = comp {
        spec.jpeg = Some(codecs::jpeg_tables());
    }
    if let Comp::Lerc(Some(i)) = comp {
        spec.lerc = Some(vec![4, i]);
    }
    let cap = matches!(comp, Comp::None | Comp::Deflate | Comp::OldDeflate | Comp::Lzw | Comp::Zstd).then_some(SMALL);
    Case { spec, blocks: img.blocks(), cap }
}

fn cases(full: bool) -> Vec<Case> {
    let mut v = vec![];
    for c in [Comp::None, Comp::Deflate, Comp::Lzw, Comp::Zstd, Comp::Lzma] {
        v.push(case(c, 3, 2, 1, false, 1, 8, 0, false));
        v.push(case(c, 2, 2, 3, false, 1, 16, 2, true));
        v.push(case(c, 2, 2, 2, true, 3, 32, 3, false));
        if full {
            v.push(case(c, 3, 3, 2, true, 2, 16, 2, true));
            v.push(case(c, 8, 1, 1, false, 1, 1, 0, false));
            v.push(case(c, 2, 1, 2, false, 3, 64, 3, true));
        }
    }
    for i in [None, Some(0), Some(1), Some(2)] {
        v.push(case(Comp::Lerc(i), 3, 2, 1, false, 3, 32, 0, false));
    }
    v.push(case(Comp::Lerc(Some(0)), 2, 2, 2, true, 1, 16, 0, false));
    v.push(case(Comp::Jpeg(true), 8, 8, 1, false, 1, 8, 0, false));
    v.push(case(Comp::Jpeg(true), 8, 8, 3, false, 1, 8, 0, false));
    v.push(case(Comp::Jpeg(false), 8, 8, 1, false, 1, 8, 0, false));
    for (spp, p) in [(3, 1), (3, 6), (4, 5), (4, 1), (4, 2)] {
        let mut c = case(Comp::Jpeg(spp == 4), 8, 8, spp, false, 1, 8, 0, false);
        c.spec.photometric = p;
        v.push(c);
    }
    v.push(case(Comp::WebP, 3, 2, 3, false, 1, 8, 0, false));
    v.push(case(Comp::WebP, 3, 2, 4, false, 1, 8, 0, false));
    v.push(case(Comp::J2k, 4, 4, 1, false, 1, 8, 0, false));
    v.push(case(Comp::J2k, 4, 4, 1, false, 1, 16, 0, false));
    v
}

fn encode(comp: u16, data: &[u8]) -> Vec<u8> {
    match comp {
        8 | 32946 => codecs::deflate(data),
        5 => codecs::lzw(data),
        50000 => codecs::zstd(data),
        34925 => codecs::xz(data),
        _ => data.to_vec(),
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let thorough = t.thorough();
    let cs: Arc<Vec<Case>> = Arc::new(cases(true));
    let few: Arc<Vec<Case>> = Arc::new(cases(thorough));
    let mut bodies = vec![];
    {
        let cs = cs.clone();
        bodies.push(body("the tiles themselves decode", move |ch| {
            let c = ch.pick(&cs);
            ch.note(|| format!("{c:?}"));
            ensure!(attempt(ch, &c.spec, &c.blocks, c.cap)?, "a valid tile is refused: {:?}", c.spec);
            Ok(())
        }));
    }
    {
        let cs = cs.clone();
        bodies.push(body("every truncation and extension of every block", move |ch| {
            let c = ch.pick(&cs);
            let i = ch.choose(c.blocks.len());
            let n = ch.choose(c.blocks[i].len() + 9);
            let fill = ch.pick(&[0u8, 0xff]);
            let mut b = c.blocks.clone();
            let l = b[i].len();
            if n <= l {
                if fill != 0 {
                    return Ok(());
                }
                b[i].truncate(n);
            } else {
                b[i].resize(n, fill);
            }
            ch.note(|| format!("block {i} of {:?} has {n} of {l} bytes", c.spec));
            attempt(ch, &c.spec, &b, c.cap)?;
            Ok(())
        }));
    }
    {
        let few = few.clone();
        bodies.push(body("every value of every byte of the stream", move |ch| {
            let c = ch.pick(&few);
            let i = ch.choose(c.blocks.len());
            if i > 0 && !thorough {
                return Ok(());
            }
            let n = c.blocks[i].len();
            let k = ch.choose(n);
            let vals: Vec<u8> = if thorough || n < 100 { (1..=255).collect() } else { vec![1, 2, 4, 8, 16, 32, 64, 128, 255, 0x7f] };
            let v = ch.pick(&vals);
            let mut b = c.blocks.clone();
            b[i][k] ^= v;
            ch.note(|| format!("byte {k} of block {i} of {:?} becomes {:#x}", c.spec, b[i][k]));
            attempt(ch, &c.spec, &b, c.cap)?;
            Ok(())
        }));
    }
    {
        let cs = cs.clone();
        bodies.push(body("streams of another codec", move |ch| {
            let c = ch.pick(&cs);
            let d = ch.pick(&cs);
            let mut s = c.spec.clone();
            s.comp = d.spec.comp;
            s.jpeg = ch.flag().then(|| d.spec.jpeg.clone()).flatten();
            s.lerc = ch.flag().then(|| d.spec.lerc.clone()).flatten();
            let cap = if c.cap.is_some() { d.cap } else { None };
            ch.note(|| format!("the stream of {:?} as {s:?}", c.spec));
            attempt(ch, &s, &c.blocks, cap)?;
            Ok(())
        }));
    }
    {
        let cs = cs.clone();
        bodies.push(body("other tile sizes, sample counts, depths, predictors and organisations", move |ch| {
            let c = ch.pick(&cs);
            let mut s = c.spec.clone();
            s.w = ch.pick(&[s.w, 1, s.w - 1, s.w + 1, 65535, u32::MAX]);
            s.h = ch.pick(&[s.h, 1, s.h + 1, u32::MAX]);
            let spp = ch.pick(&[s.spp, 1, 2, s.spp + 1, 4, 65535]);
            let bits = ch.pick(&[s.bits[0], 1, 7, 8, 12, 16, 24, 32, 64, 128, 65535]);
            if spp == 65535 && !thorough && bits != s.bits[0] {
                return Ok(());
            }
            s.bits = vec![bits; spp as usize];
            s.sf = vec![c.spec.sf[0]; spp as usize];
            s.spp = spp;
            s.pred = ch.pick(&[s.pred, 1, 2, 3]);
            s.planar ^= ch.flag();
            s.be ^= ch.flag();
            let cap = c.cap.map(|_| SMALL);
            ch.note(|| format!("{:?} read as {}x{} spp {spp} bits {bits} pred {} planar {} be {}", c.spec, s.w, s.h, s.pred, s.planar, s.be));
            let mut blocks = c.blocks.clone();
            if s.planar && blocks.len() < spp.min(8) as usize {
                // the table lists enough blocks
                blocks.resize(spp.min(8) as usize, c.blocks[0].clone());
            }
            attempt(ch, &s, &blocks, cap)?;
            Ok(())
        }));
    }
    bodies.push(body("predictors on data of every length", move |ch| {
        let comp = ch.pick(&[1u16, 8, 5, 50000]);
        let n = ch.choose(t.sel(70, 140));
        let w = ch.choose(5) as u32 + 1;
        let h = ch.choose(3) as u32 + 1;
        let spp = ch.choose(4) as u16 + 1;
        let (sf, bits) = ch.pick(&[(1u16, 8u16), (1, 16), (2, 32), (1, 64), (3, 16), (3, 24), (3, 32), (3, 64), (1, 1), (1, 12), (3, 128), (1, 0)]);
        let pred = ch.choose(3) as u16 + 1;
        let planar = ch.flag();
        let mut s = Spec::new(w, h, spp, planar, sf, bits);
        s.comp = comp;
        s.pred = pred;
        s.be = comp == 8;
        let blocks: Vec<Vec<u8>> = if planar {
            // the first band has the odd length
            let right = (w * h) as usize * bits as usize / 8;
            (0..spp).map(|i| encode(comp, &vec![i as u8; if i == 0 { n } else { right }])).collect()
        } else {
            vec![encode(comp, &(0..n).map(|i| mix(i as u64) as u8).collect::<Vec<_>>())]
        };
        ch.note(|| format!("{s:?} with {n} decoded bytes"));
        attempt(ch, &s, &blocks, Some(SMALL))?;
        Ok(())
    }));
    bodies.push(body("mixed sample formats and depths", move |ch| {
        let w = ch.choose(2) as u32 + 1;
        let nb = ch.choose(5);
        let nf = ch.choose(5);
        let spp = ch.choose(4) as u16;
        let mut s = Spec::new(w, 1, spp, ch.flag(), 1, 8);
        s.bits = (0..nb).map(|_| ch.pick(&[8u16, 16, 1])).collect();
        s.sf = (0..nf).map(|_| ch.pick(&[1u16, 3, 0])).collect();
        s.pred = ch.choose(3) as u16 + 1;
        let n = ch.choose(10);
        let blocks: Vec<Vec<u8>> = (0..if s.planar { spp } else { 1 }).map(|i| vec![i as u8; n]).collect();
        ch.note(|| format!("{s:?} {n}"));
        attempt(ch, &s, &blocks, Some(SMALL))?;
        Ok(())
    }));
    bodies.push(body("JPEG tables and LERC parameters", move |ch| {
        let full = codecs::jpeg_tables();
        if ch.flag() {
            let mut c = case(Comp::Jpeg(ch.flag()), 8, 8, 1 + 2 * ch.choose(2) as u16, false, 1, 8, 0, false);
            c.spec.photometric = ch.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8]);
            let mut j = full.clone();
            match ch.choose(3) {
                0 => j.truncate(ch.choose(full.len() + 1)),
                1 => {
                    let k = ch.choose(full.len());
                    j[k] ^= ch.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 255]);
                }
                _ => {
                    let n = ch.choose(5);
                    j = (0..n).map(|_| ch.pick(&[0u8, 0xff, 0xd8, 0xd9])).collect();
                }
            }
            ch.note(|| format!("JPEGTables {j:x?} {:?}", c.spec));
            c.spec.jpeg = Some(j);
            attempt(ch, &c.spec, &c.blocks, None)?;
        } else {
            let i = ch.pick(&[None, Some(0), Some(1), Some(2)]);
            let mut c = case(Comp::Lerc(i), 3, 2, 1, false, 3, 32, 0, false);
            let n = ch.choose(4);
            c.spec.lerc = Some((0..n).map(|_| ch.pick(&[0u32, 1, 2, 3, 4, u32::MAX])).collect());
            ch.note(|| format!("{:?}", c.spec));
            attempt(ch, &c.spec, &c.blocks, None)?;
        }
        Ok(())
    }));
    bodies.push(body("every short string as a stream", move |ch| {
        let comp = ch.pick(&[1u16, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001]);
        let n = ch.choose(t.sel(6, 7));
        let first: &[u8] = match comp {
            8 | 32946 => &[0x78, 0, 0xff],
            50000 => &[0x28, 0, 0xff],
            7 => &[0xff, 0, 0xd8],
            _ => &[0x80, 0, 0xff],
        };
        let data: Vec<u8> = (0..n).map(|i| if i == 0 { ch.pick(first) } else { ch.pick(&[0u8, 1, 0x80, 0xff, 0x9c, 0xb5]) }).collect();
        let mut s = Spec::new(2, 1, 1, false, 1, 8);
        s.comp = comp;
        s.pred = ch.choose(2) as u16 + 1;
        ch.note(|| format!("{s:?} {data:x?}"));
        attempt(ch, &s, &[data], Some(SMALL))?;
        Ok(())
    }));
    {
        let cs = cs.clone();
        bodies.push(body("streams cut short or with a checksum that tells", move |ch| {
            let mut c = ch.pick(&cs);
            if c.spec.comp == 50000 {
                for b in &mut c.blocks {
                    use std::io::Write;
                    let mut z = zstd::Encoder::new(Vec::new(), 3).unwrap();
                    z.include_checksum(true).unwrap();
                    z.write_all(&zstd::decode_all(&b[..]).unwrap()).unwrap();
                    *b = z.finish().unwrap();
                }
            }
            let i = ch.choose(c.blocks.len());
            let n = c.blocks[i].len();
            let mut b = c.blocks.clone();
            let cut = ch.flag();
            let k = ch.choose(n);
            if cut {
                b[i].truncate(k);
            } else {
                // deflate, zstd and LZMA streams carry a checksum of their contents
                if !matches!(c.spec.comp, 8 | 50000 | 34925) {
                    return Ok(());
                }
                b[i][k] ^= ch.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 255]);
            }
            let inner = c.spec.lerc.as_ref().and_then(|l| l.get(1).copied());
            if codecs::announced(c.spec.comp, &b[i], inner) > 32 << 20 {
                return Ok(());
            }
            ch.note(|| format!("byte {k} of block {i} of {:?}, {}", c.spec, if cut { "the end" } else { "changed" }));
            ch.step((&c.spec, cut, k, b[i].get(k)));
            let decode = |b: &[Vec<u8>]| c.spec.fetch(b).and_then(|t| REG.with(|reg| t.decode(reg)).map_err(|e| e.to_string()));
            let whole = bits_of(decode(&c.blocks).map_err(|e| format!("a valid tile is refused: {e}"))?.data());
            if let Ok(a) = decode(&b) {
                let got = bits_of(a.data());
                ensure!(got == whole, "a damaged stream was decoded to {:x?} instead of {:x?}", got.1, whole.1);
            }
            Ok(())
        }));
    }
    (
        bodies,
        about(
            "a valid tile of every codec (uncompressed, deflate, LZW, zstd, LZMA, LERC with 4 inner codecs, JPEG with and without tables, WebP with and without alpha, JPEG 2000 of 8 and 16 bits) x predictors x organisations: every truncation, extensions by 8 bytes, every (quick: for longer streams ten) change of every byte, every stream as every other codec, all combinations of 6 widths x 4 heights x 6 sample counts x 11 depths x 4 predictors x organisation x byte order; decoded lengths 0-69 for every predictor; mixed tables; JPEG tables; LERC parameters; short strings",
            &["allocations are bounded by 16 MiB for the codecs whose stream does not announce a size; for the others (LZMA, LERC, JPEG, WebP, JPEG 2000) by 4 GiB", "streams whose own header announces an image of more than 32 MiB are left out: decompression bombs are not a corruption the tile size could reveal to a decoder"],
        ),
    )
}
