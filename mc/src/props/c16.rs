//! C16: arrays and their conversion.
use async_tiff::decoder::DecoderRegistry;
use async_tiff::ndarray::NdArray;
use async_tiff::{Array, DataType, TypedArray};

use super::c15::encode;
use super::kit::{unrelated, Spec};
use super::{about, bits_of, expect_type, type_name, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::tiffw::{mix, Comp};
use crate::Tier;

thread_local! {
    static REG: DecoderRegistry = DecoderRegistry::default();
}

const DT: [DataType; 11] = [
    DataType::Bool,
    DataType::UInt8,
    DataType::UInt16,
    DataType::UInt32,
    DataType::UInt64,
    DataType::Int8,
    DataType::Int16,
    DataType::Int32,
    DataType::Int64,
    DataType::Float32,
    DataType::Float64,
];

fn size(name: &str) -> usize {
    match name {
        "bool" | "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        _ => 8,
    }
}

fn elems(data: &[u8], sz: usize) -> Vec<u64> {
    data.chunks_exact(sz)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..sz].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}

fn nd(a: NdArray) -> (&'static str, Vec<usize>, Vec<u64>, Option<Vec<u64>>) {
    macro_rules! go {
        ($n:literal, $x:expr, $f:expr) => {{
            let x = $x;
            let f = $f;
            let sh = x.shape().to_vec();
            let mut by_index = vec![];
            for i in 0..sh[0] {
                for j in 0..sh[1] {
                    for k in 0..sh[2] {
                        by_index.push(f(&x[[i, j, k]]));
                    }
                }
            }
            let flat = x.as_slice().map(|s| s.iter().map(f).collect());
            ($n, sh, by_index, flat)
        }};
    }
    match a {
        NdArray::Bool(x) => go!("bool", x, |v: &bool| *v as u64),
        NdArray::Uint8(x) => go!("u8", x, |v: &u8| *v as u64),
        NdArray::Uint16(x) => go!("u16", x, |v: &u16| *v as u64),
        NdArray::Uint32(x) => go!("u32", x, |v: &u32| *v as u64),
        NdArray::Uint64(x) => go!("u64", x, |v: &u64| *v),
        NdArray::Int8(x) => go!("i8", x, |v: &i8| *v as u8 as u64),
        NdArray::Int16(x) => go!("i16", x, |v: &i16| *v as u16 as u64),
        NdArray::Int32(x) => go!("i32", x, |v: &i32| *v as u32 as u64),
        NdArray::Int64(x) => go!("i64", x, |v: &i64| *v as u64),
        NdArray::Float32(x) => go!("f32", x, |v: &f32| v.to_bits() as u64),
        NdArray::Float64(x) => go!("f64", x, |v: &f64| v.to_bits()),
    }
}

/// Everything an array shows must agree; `ty`: none if unknown.
fn consistent(a: Array, ty: Option<&'static str>, shape: [usize; 3], want: &[u64]) -> Result<(), String> {
    let (name, got) = bits_of(a.data());
    let want_name = ty.unwrap_or("u8");
    ensure!(name == want_name, "elements of type {name} instead of {want_name}");
    ensure!(type_name(a.data_type()) == ty.unwrap_or("none"), "announced as {}", type_name(a.data_type()));
    ensure!(a.shape() == shape, "shape {:?} instead of {shape:?}", a.shape());
    ensure!(got.len() == shape.iter().product::<usize>(), "{} elements for the shape {shape:?}", got.len());
    ensure!(a.data().len() == got.len() && a.data().is_empty() == got.is_empty(), "len() is {}", a.data().len());
    ensure!(got == want, "elements {got:x?} instead of {want:x?}");
    let bytes: &[u8] = a.data().as_ref();
    let back: Vec<u64> = elems(bytes, size(want_name));
    ensure!(bytes.len() == got.len() * size(want_name) && back == want, "the bytes of the array are {bytes:x?}");
    let (d, s, t) = a.clone().into_inner();
    ensure!(bits_of(&d) == (name, got.clone()) && s == shape && type_name(t) == ty.unwrap_or("none"), "into_inner() differs");
    match (NdArray::try_from(a), ty) {
        (Ok(n), Some(ty)) => {
            let (n, sh, by_index, flat) = nd(n);
            ensure!(n == ty && sh == shape, "n-dimensional array of {n} {sh:?} instead of {ty} {shape:?}");
            ensure!(by_index == want, "n-dimensional array holds {by_index:x?} instead of {want:x?}");
            ensure!(flat.is_none_or(|f| f == want), "n-dimensional array in memory order");
        }
        (Err(e), Some(_)) => return Err(format!("no n-dimensional array: {e}")),
        (Ok(_), None) => return Err("an n-dimensional array of unknown type".into()),
        (Err(_), None) => {}
    }
    Ok(())
}

/// Decode a tile that holds these bytes.
fn decode(ch: &mut Ch, s: &Spec, data: &[u8]) -> Result<Result<Array, String>, String> {
    let n = if s.planar { s.spp as usize } else { 1 };
    let per = data.len() / n.max(1);
    let mut blocks: Vec<Vec<u8>> = (0..n).map(|i| data[i * per..(i + 1) * per].to_vec()).collect();
    if let Some(l) = blocks.last_mut() {
        l.extend(&data[n * per..]);
    }
    ch.note(|| format!("{s:?}: {} bytes {:x?}", data.len(), &data[..data.len().min(64)]));
    let t = s.fetch(&blocks).map_err(|e| format!("fetch: {e}"))?;
    Ok(REG.with(|r| t.decode(r)).map_err(|e| e.to_string()))
}

fn bytes(n: usize, k: u64) -> Vec<u8> {
    (0..n).map(|i| mix(i as u64 * 3 + k) as u8).collect()
}

fn expand(data: &[u8], n: usize) -> Vec<u64> {
    (0..n).map(|i| (data[i / 8] >> (7 - i % 8) & 1) as u64).collect()
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every sample format and bit depth", move |ch| {
            let sf = ch.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 255, 256, 65535]);
            let bits = ch.choose(t.sel(520, 65_536)) as u16;
            let planar = ch.flag();
            let spp = ch.choose(3) as u16 + 1;
            let (w, h) = (3, 2);
            let s = Spec::new(w, h, spp, planar, sf, bits);
            let ty = expect_type(sf, bits);
            let n = (w * h) as usize * spp as usize;
            ch.step((sf, bits, planar, spp));
            let len = match ty {
                Some("bool") => {
                    if planar && spp > 1 {
                        return Ok(());
                    }
                    n.div_ceil(8)
                }
                Some(x) => n * size(x),
                // of unknown type: bytes, accepted when there are as many as elements
                None => n,
            };
            let data = bytes(len, sf as u64);
            match decode(ch, &s, &data)? {
                Ok(a) => {
                    let want = match ty {
                        Some("bool") => expand(&data, n),
                        Some(x) => elems(&data, size(x)),
                        None => elems(&data, 1),
                    };
                    ch.observe((ty, &want));
                    consistent(a, ty, s.shape(), &want)
                }
                Err(e) => {
                    ensure!(ty.is_none(), "sample format {sf} of {bits} bits is refused: {e}");
                    Ok(())
                }
            }
        }),
        body("among unrelated tags and compressions", move |ch| {
            let (sf, bits) = ch.pick(&[(1u16, 1u16), (1, 8), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (1, 64), (2, 64), (3, 64)]);
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3, 4]);
            let (w, h) = (8, 2);
            let mut s = Spec::new(w, h, spp, planar, sf, bits);
            let n = unrelated().len();
            s.ctx = vec![ch.choose(n)];
            if t.thorough() {
                s.ctx.push(ch.choose(n));
            }
            s.pred = ch.choose(2) as u16;
            let comp = ch.pick(&[Comp::None, Comp::Deflate, Comp::Lzw, Comp::Zstd]);
            s.comp = comp.code();
            let ty = expect_type(sf, bits);
            let k = (w * h) as usize * spp as usize;
            ch.step(&s);
            let data = bytes(if bits == 1 { k / 8 } else { k * bits as usize / 8 }, 5);
            let per = data.len() / if planar { spp as usize } else { 1 };
            let blocks: Vec<Vec<u8>> = data.chunks(per).map(|b| encode(comp, b, 0)).collect();
            let tile = s.fetch(&blocks).map_err(|e| format!("fetch: {e}"))?;
            let a = REG.with(|r| tile.decode(r)).map_err(|e| format!("refused: {e}"))?;
            let want = if bits == 1 { expand(&data, k) } else { elems(&data, bits as usize / 8) };
            consistent(a, ty, s.shape(), &want)
        }),
        body("formats and depths that differ between samples", move |ch| {
            let n = ch.choose(3) + 2;
            let sf: Vec<u16> = (0..n).map(|_| ch.pick(&[1u16, 2, 3])).collect();
            let bits: Vec<u16> = (0..n).map(|_| ch.pick(&[8u16, 16, 32])).collect();
            if n == 4 && !t.thorough() && (sf[2] != sf[3] || bits[1] != bits[2]) {
                return Ok(());
            }
            let planar = ch.flag();
            let mut s = Spec::new(2, 1, n as u16, planar, 1, 8);
            (s.sf, s.bits) = (sf.clone(), bits.clone());
            let agree = sf.iter().all(|x| *x == sf[0]) && bits.iter().all(|x| *x == bits[0]);
            let ty = if agree { expect_type(sf[0], bits[0]) } else { None };
            let len = 2 * n * ty.map_or(1, size);
            let data = bytes(len, 3);
            ch.step((&sf, &bits, planar));
            match decode(ch, &s, &data)? {
                Ok(a) => consistent(a, ty, s.shape(), &elems(&data, ty.map_or(1, size))),
                Err(e) => {
                    ensure!(ty.is_none(), "refused: {e}");
                    Ok(())
                }
            }
        }),
        body("lists of formats and depths of every length", move |ch| {
            // one value for all samples is usual
            let spp = ch.choose(4) as u16 + 1;
            let a = ch.choose(5);
            let b = ch.choose(5);
            let (sf, bits) = ch.pick(&[(1u16, 8u16), (2, 16), (3, 32), (3, 64)]);
            let planar = ch.flag();
            let mut s = Spec::new(2, 2, spp, planar, sf, bits);
            s.sf = vec![sf; a];
            s.bits = vec![bits; b];
            ch.step((spp, a, b, sf, bits, planar));
            let ty = if a > 0 && b > 0 { expect_type(sf, bits) } else { None };
            let data = bytes(4 * spp as usize * ty.map_or(1, size), 4);
            ch.note(|| format!("{s:?}"));
            let n = if planar { spp as usize } else { 1 };
            let blocks: Vec<Vec<u8>> = data.chunks(data.len() / n).map(|c| c.to_vec()).collect();
            let tile = match s.fetch(&blocks) {
                Err(_) => return Ok(()),
                Ok(t) => t,
            };
            match (REG.with(|r| tile.decode(r)), ty) {
                (Ok(a), ty) => consistent(a, ty, s.shape(), &elems(&data, ty.map_or(1, size))),
                (Err(e), Some(_)) if a == spp as usize && b == spp as usize => Err(format!("refused: {e}")),
                (Err(_), _) => Ok(()),
            }
        }),
        body("every shape with data of every length", move |ch| {
            let (sf, bits) = ch.pick(&[(1u16, 1u16), (1, 8), (2, 8), (1, 16), (3, 32), (2, 64), (3, 64), (1, 12)]);
            let planar = ch.flag();
            let spp = ch.choose(3) as u16 + 1;
            let (w, h) = (ch.choose(4) as u32 + 1, ch.choose(3) as u32 + 1);
            let s = Spec::new(w, h, spp, planar, sf, bits);
            let n = (w * h) as usize * spp as usize;
            let ty = expect_type(sf, bits);
            let need = match ty {
                Some("bool") => n.div_ceil(8),
                _ => n * ty.map_or(1, size),
            };
            let len = ch.choose(need + t.sel(15, 40));
            let data = bytes(len, 9);
            ch.step((sf, bits, planar, spp, w, h, len));
            let r = decode(ch, &s, &data)?;
            ch.observe(r.is_ok());
            match (r, ty) {
                (Ok(a), Some("bool")) => {
                    ensure!(len >= need, "{len} bytes made {n} one-bit samples");
                    consistent(a, ty, s.shape(), &expand(&data, n))
                }
                (Ok(a), ty) => {
                    ensure!(len == need, "{len} bytes were accepted for the shape {:?}", s.shape());
                    consistent(a, ty, s.shape(), &elems(&data, ty.map_or(1, size)))
                }
                (Err(e), Some(_)) => {
                    ensure!(len != need, "exactly the data of the shape is refused: {e}");
                    Ok(())
                }
                (Err(_), None) => Ok(()),
            }
        }),
        body("one-bit samples: every byte, every number of elements", move |ch| {
            let b0 = ch.choose(256) as u8;
            let b1 = ch.pick(&[0u8, 0xff, 0x81, 0x5a, 0x12]);
            for n in 1..=16u32 {
                for (w, h, spp) in [(n, 1, 1u16), (1, n, 1), (1, 1, n as u16)] {
                    for surplus in 0..2 {
                        let s = Spec::new(w, h, spp, false, 1, 1);
                        let mut data = vec![b0, b1];
                        data.truncate((n as usize).div_ceil(8));
                        data.extend(vec![0xff; surplus]);
                        ch.step((b0, b1, w, h, spp, surplus));
                        let a = decode(ch, &s, &data)?.map_err(|e| format!("{n} one-bit samples: {e}"))?;
                        consistent(a, Some("bool"), s.shape(), &expand(&data, n as usize))?;
                    }
                }
            }
            ch.observe((b0, b1));
            Ok(())
        }),
        body("typed arrays from bytes of every length and alignment", move |ch| {
            let k = ch.choose(12);
            let len = ch.choose(t.sel(200, 1000));
            let spare = ch.choose(4);
            let ty = (k < 11).then(|| DT[k]);
            let data = bytes(len, k as u64);
            let mut v = Vec::with_capacity(len + spare);
            v.extend(&data);
            ch.note(|| format!("{ty:?} from {len} bytes, capacity {}", v.capacity()));
            ch.step((k, len, spare));
            let sz = ty.map_or(1, |t| size(type_name(Some(t))));
            ensure!(ty.is_none_or(|t| t.size() == sz), "size() of {ty:?}");
            match TypedArray::try_new(v, ty) {
                Ok(a) => {
                    ensure!(ty != Some(DataType::Bool) || len == 0 || a.len() == len, "bool from bytes");
                    ensure!(len % sz == 0, "{len} bytes made {ty:?}");
                    let (n, e) = bits_of(&a);
                    ensure!(n == ty.map_or("u8", |t| type_name(Some(t))), "{n}");
                    ensure!(e == elems(&data, sz), "{ty:?} from {data:x?}: {e:x?}");
                    ensure!(a.len() == len / sz && a.is_empty() == (len == 0), "len() of {ty:?}");
                    let r: &[u8] = a.as_ref();
                    ensure!(r == &data[..], "as_ref() of {ty:?}");
                    ch.observe(e);
                }
                Err(e) => ensure!(len % sz != 0 || ty == Some(DataType::Bool), "{ty:?} from {len} bytes: {e}"),
            }
            Ok(())
        }),
        body("all 8-bit and 16-bit elements keep their value", move |ch| {
            let hi = ch.choose(256) as u8;
            let ty = ch.pick(&[(1u16, 16u16), (2, 16), (1, 8), (2, 8)]);
            let data: Vec<u8> = (0..=255u8).flat_map(|lo| [lo, hi]).collect();
            let w = 512 / (ty.1 as u32 / 8);
            let s = Spec::new(w / 4, 4, 1, false, ty.0, ty.1);
            ch.step((hi, ty));
            let a = decode(ch, &s, &data)??;
            consistent(a, expect_type(ty.0, ty.1), s.shape(), &elems(&data, ty.1 as usize / 8))
        }),
        body("arrays of many elements", move |ch| {
            let (sf, bits) = ch.pick(&[(1u16, 1u16), (1, 8), (2, 8), (1, 16), (2, 16), (1, 32), (2, 32), (3, 32), (1, 64), (2, 64), (3, 64)]);
            let planar = ch.flag();
            let (w, h, spp) = ch.pick(&[(300u32, 300u32, 1u16), (256, 256, 1), (65_537, 1, 1), (1, 70_000, 1), (128, 128, 5), (2, 3, 11_000), (1024, 1024, 3)][..t.sel(6, 7)]);
            if bits == 1 && planar && spp > 1 {
                return Ok(());
            }
            let s = Spec::new(w, h, spp, planar, sf, bits);
            let ty = expect_type(sf, bits);
            let n = (w * h) as usize * spp as usize;
            let data = bytes(if bits == 1 { n.div_ceil(8) } else { n * bits as usize / 8 }, 5);
            ch.step((sf, bits, planar, w, h, spp));
            let want = if bits == 1 { expand(&data, n) } else { elems(&data, bits as usize / 8) };
            let a = decode(ch, &s, &data)?.map_err(|e| format!("{s:?} is refused: {e}").chars().take(400).collect::<String>())?;
            consistent(a, ty, s.shape(), &want).map_err(|e| e.chars().take(400).collect())
        }),
        body("large shapes", move |ch| {
            let planar = ch.flag();
            let (w, h, spp) = ch.pick(&[(1u32 << 31, 1u32 << 31, 4u16), (u32::MAX, u32::MAX, 65535), (1 << 20, 1 << 20, 3), (u32::MAX, 1, 1), (65536, 65536, 1)]);
            let (sf, bits) = ch.pick(&[(1u16, 8u16), (1, 1), (3, 64), (1, 16)]);
            let mut s = Spec::new(w, h, 1, planar, sf, bits);
            s.spp = spp;
            ch.step((planar, w, h, spp, sf, bits));
            let r = decode(ch, &s, &[1, 2, 3, 4, 5, 6, 7, 8]);
            match r {
                Ok(Ok(a)) => Err(format!("8 bytes made an array of shape {:?}", a.shape())),
                _ => Ok(()),
            }
        }),
    ];
    (
        bodies,
        about(
            format!("11 sample formats x {} bit depths; lists of 2 to 4 differing formats and depths; every shape up to 4 x 3 x 3 with data of every length up to {} bytes beyond; all bytes x 1 to 16 one-bit samples; arrays of 11 types with up to {} elements; typed arrays of 12 kinds from up to {} bytes", t.sel(520, 65_536), t.sel(14, 39), t.sel(90_000, 3 << 20), t.sel(199, 999)),
            &["data of unknown type are shown as bytes, one per element"],
        ),
    )
}
