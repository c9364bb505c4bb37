//! C22: numeric codes.
use std::collections::HashMap;

use async_tiff::reader::Endianness;
use async_tiff::tags::{Compression, ExtraSamples, PhotometricInterpretation, PlanarConfiguration, Predictor, ResolutionUnit, SampleFormat, Tag, Type};
use async_tiff::{ImageFileDirectory, TagValue};

use super::{about, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::sources::{Eof, Mem};
use crate::tiffw::{e, FileSpec, IfdSpec, FMTS, V};
use crate::Tier;

macro_rules! table {
    ($t:ident: $($n:ident $c:literal),* $(,)?) => { &[$(($c as u16, $t::$n, stringify!($n))),*] };
}

// TIFF 6.0, its technical notes, BigTIFF, GeoTIFF, libtiff and GDAL registers
#[rustfmt::skip]
const TAG: &[(u16, Tag, &str)] = table![Tag:
    NewSubfileType 254, SubfileType 255, ImageWidth 256, ImageLength 257, BitsPerSample 258, Compression 259,
    PhotometricInterpretation 262, Threshholding 263, CellWidth 264, CellLength 265, FillOrder 266,
    ImageDescription 270, Make 271, Model 272, StripOffsets 273, Orientation 274, SamplesPerPixel 277,
    RowsPerStrip 278, StripByteCounts 279, MinSampleValue 280, MaxSampleValue 281, XResolution 282,
    YResolution 283, PlanarConfiguration 284, FreeOffsets 288, FreeByteCounts 289, GrayResponseUnit 290,
    GrayResponseCurve 291, ResolutionUnit 296, Software 305, DateTime 306, Artist 315, HostComputer 316,
    Predictor 317, ColorMap 320, TileWidth 322, TileLength 323, TileOffsets 324, TileByteCounts 325,
    ExtraSamples 338, SampleFormat 339, SMinSampleValue 340, SMaxSampleValue 341, JPEGTables 347,
    Copyright 33432, ModelPixelScale 33550, ModelTiepoint 33922, ModelTransformation 34264,
    GeoKeyDirectory 34735, GeoDoubleParams 34736, GeoAsciiParams 34737, GdalMetadata 42112, GdalNodata 42113,
    LercParameters 50674];
#[rustfmt::skip]
const TYPE: &[(u16, Type, &str)] = table![Type: BYTE 1, ASCII 2, SHORT 3, LONG 4, RATIONAL 5, SBYTE 6, UNDEFINED 7, SSHORT 8, SLONG 9,
    SRATIONAL 10, FLOAT 11, DOUBLE 12, IFD 13, LONG8 16, SLONG8 17, IFD8 18];
#[rustfmt::skip]
const COMPRESSION: &[(u16, Compression, &str)] = table![Compression: None 1, Huffman 2, Fax3 3, Fax4 4, LZW 5, JPEG 6, ModernJPEG 7, Deflate 8,
    PackBits 32773, OldDeflate 32946, JPEG2k 34712, LERC 34887, LZMA 34925, ZSTD 50000, WebP 50001];
const EXTRA: &[(u16, ExtraSamples, &str)] = table![ExtraSamples: Unspecified 0, AssociatedAlpha 1, UnassociatedAlpha 2];
#[rustfmt::skip]
const PHOTO: &[(u16, PhotometricInterpretation, &str)] = table![PhotometricInterpretation: WhiteIsZero 0, BlackIsZero 1, RGB 2, RGBPalette 3,
    TransparencyMask 4, CMYK 5, YCbCr 6, CIELab 8];
const PLANAR: &[(u16, PlanarConfiguration, &str)] = table![PlanarConfiguration: Chunky 1, Planar 2];
const PREDICTOR: &[(u16, Predictor, &str)] = table![Predictor: None 1, Horizontal 2, FloatingPoint 3];
const UNIT: &[(u16, ResolutionUnit, &str)] = table![ResolutionUnit: None 1, Inch 2, Centimeter 3];
const FORMAT: &[(u16, SampleFormat, &str)] = table![SampleFormat: Uint 1, Int 2, Float 3, Void 4];

/// Both directions for one code. A code outside the table may get a name of its own only.
fn both<T: Copy + PartialEq + std::fmt::Debug>(
    what: &str,
    code: u16,
    table: &[(u16, T, &str)],
    from: impl Fn(u16) -> Option<T>,
    exhaustive: Option<fn(u16) -> (T, Option<u16>)>,
    to: impl Fn(T) -> u16,
) -> Result<(), String> {
    let got = from(code);
    match table.iter().find(|r| r.0 == code) {
        Some((_, v, name)) => {
            ensure!(got == Some(*v), "{what} {code} is {got:?} instead of {name}");
            ensure!(to(*v) == code, "{what} {name} is written as {}", to(*v));
            if let Some(x) = exhaustive {
                ensure!(x(code).0 == *v, "{what} {code} is {:?} instead of {name}", x(code).0);
            }
        }
        None => {
            if let Some(g) = got {
                ensure!(to(g) == code && table.iter().all(|r| r.1 != g), "{what} {code}, which is none, is {g:?}");
            }
            if let Some(x) = exhaustive {
                let (v, unknown) = x(code);
                ensure!(to(v) == code, "{what} {code} is kept as {v:?}, that is {}", to(v));
                ensure!(got == Some(v) || unknown == Some(code), "{what} {code} is kept as {v:?}");
                ensure!(table.iter().all(|r| r.1 != v), "{what} {code} is {v:?}");
            }
        }
    }
    Ok(())
}

fn dir(m: &[(Tag, TagValue)]) -> Result<ImageFileDirectory, String> {
    let mut h: HashMap<Tag, TagValue> = HashMap::new();
    h.insert(Tag::ImageWidth, TagValue::Short(1));
    h.insert(Tag::ImageLength, TagValue::Short(1));
    h.insert(Tag::BitsPerSample, TagValue::Short(8));
    h.insert(Tag::SamplesPerPixel, TagValue::Short(1));
    h.insert(Tag::PhotometricInterpretation, TagValue::Short(1));
    h.extend(m.iter().cloned());
    ImageFileDirectory::from_tags(h, Endianness::LittleEndian).map_err(|e| e.to_string())
}

/// A directory with one code: the accessor shows it, or (unknown) `refused` decides.
fn shown(what: &str, code: u16, known: bool, keeps: bool, absent: bool, got: Result<Option<u16>, String>) -> Result<(), String> {
    match got {
        Ok(Some(c)) => ensure!(c == code && (known || keeps), "{what} {code} is shown as {c}"),
        Ok(None) => ensure!(!known && absent, "{what} {code} is not shown"),
        Err(e) => ensure!(!known && !keeps, "{what} {code} is refused: {e}"),
    }
    Ok(())
}

fn is<T>(table: &[(u16, T, &str)], code: u16) -> bool {
    table.iter().any(|r| r.0 == code)
}

fn all(ch: &mut Ch, code: u16) -> Result<(), String> {
    let c = code;
    ch.step(c);
    both("tag", c, TAG, Tag::from_u16, Some(|c| (Tag::from_u16_exhaustive(c), if let Tag::Unknown(n) = Tag::from_u16_exhaustive(c) { Some(n) } else { None })), Tag::to_u16)?;
    both("type", c, TYPE, Type::from_u16, None, Type::to_u16)?;
    both(
        "compression",
        c,
        COMPRESSION,
        Compression::from_u16,
        Some(|c| (Compression::from_u16_exhaustive(c), if let Compression::Unknown(n) = Compression::from_u16_exhaustive(c) { Some(n) } else { None })),
        Compression::to_u16,
    )?;
    both("extra sample", c, EXTRA, ExtraSamples::from_u16, None, ExtraSamples::to_u16)?;
    both("photometric interpretation", c, PHOTO, PhotometricInterpretation::from_u16, None, PhotometricInterpretation::to_u16)?;
    both("planar configuration", c, PLANAR, PlanarConfiguration::from_u16, None, PlanarConfiguration::to_u16)?;
    both("predictor", c, PREDICTOR, Predictor::from_u16, None, Predictor::to_u16)?;
    both("resolution unit", c, UNIT, ResolutionUnit::from_u16, None, ResolutionUnit::to_u16)?;
    both(
        "sample format",
        c,
        FORMAT,
        SampleFormat::from_u16,
        Some(|c| (SampleFormat::from_u16_exhaustive(c), if let SampleFormat::Unknown(n) = SampleFormat::from_u16_exhaustive(c) { Some(n) } else { None })),
        SampleFormat::to_u16,
    )
}

pub fn get(_t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every code of every kind, both ways", move |ch| {
            let c = ch.choose(1 << 16) as u16;
            ch.note(|| format!("code {c}"));
            all(ch, c)
        }),
        body("every code in a directory", move |ch| {
            let c = ch.choose(1 << 16) as u16;
            let form = ch.choose(3);
            let v = [TagValue::Short(c), TagValue::Unsigned(c as u32), TagValue::UnsignedBig(c as u64)][form].clone();
            ch.note(|| format!("code {c} as {v:?}"));
            ch.step((c, form));
            let one = |t: Tag| dir(&[(t, v.clone())]);
            shown("compression", c, is(COMPRESSION, c), true, false, one(Tag::Compression).map(|d| Some(d.compression().to_u16())))?;
            shown("photometric interpretation", c, is(PHOTO, c), false, false, one(Tag::PhotometricInterpretation).map(|d| Some(d.photometric_interpretation().to_u16())))?;
            shown("planar configuration", c, is(PLANAR, c), false, false, one(Tag::PlanarConfiguration).map(|d| Some(d.planar_configuration().to_u16())))?;
            shown("predictor", c, is(PREDICTOR, c), false, false, one(Tag::Predictor).map(|d| d.predictor().map(|p| p.to_u16())))?;
            shown("resolution unit", c, is(UNIT, c), false, true, one(Tag::ResolutionUnit).map(|d| d.resolution_unit().map(|p| p.to_u16())))?;
            let two = TagValue::List(vec![v.clone(), TagValue::Short(1)]);
            for (k, val) in [(1, v.clone()), (2, two)] {
                let d = dir(&[(Tag::SampleFormat, val.clone())]);
                let got = d.and_then(|d| {
                    ensure!(d.sample_format().len() == k, "{} sample formats", d.sample_format().len());
                    Ok(Some(d.sample_format()[0].to_u16()))
                });
                shown("sample format", c, is(FORMAT, c), true, false, got)?;
                let d = dir(&[(Tag::ExtraSamples, val)]);
                let got = d.and_then(|d| {
                    let x = d.extra_samples().ok_or("no extra samples")?;
                    ensure!(x.len() == k, "{} extra samples", x.len());
                    Ok(Some(x[0].to_u16()))
                });
                shown("extra sample", c, is(EXTRA, c), false, false, got)?;
            }
            Ok(())
        }),
        body("every tag code in a file", move |ch| {
            let fmt = FMTS[ch.choose(4)];
            let hi = ch.choose(256) as u16;
            for lo in 0..256u16 {
                let c = hi << 8 | lo;
                if is(TAG, c) && !OTHER.contains(&c) || c == 269 {
                    continue;
                }
                let mut es = super::base();
                es.retain(|x| x.tag != c);
                es.push(e(c, V::Short(vec![c ^ 0x1234])));
                es.sort_by_key(|x| x.tag);
                let b = FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]).build();
                ch.step((fmt, c));
                let t = open(&Mem::new(b.bytes).eof(Eof::Error)).map_err(|e| format!("tag {c}: {e}"))?;
                let d = &t.ifds()[0];
                let got: Vec<(u16, &TagValue)> = d.other_tags().iter().map(|(t, v)| (t.to_u16(), v)).collect();
                ensure!(got == [(c, &TagValue::Short(c ^ 0x1234))], "tag {c} is kept as {got:?}");
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            "all 65536 codes of tags, field types, compressions, colour interpretations, organisations, predictors, resolution units, sample formats and extra samples, both ways; each as a value of its tag in a directory in 3 integer widths; each as a tag in a file of 4 formats",
            &["a code without an entry in the table may only get a name of its own", "an unknown resolution unit may be reported as absent"],
        ),
    )
}

/// Known tags that have no accessor and are kept with the others.
const OTHER: &[u16] = &[255, 263, 264, 265, 266, 271, 272, 288, 289, 290, 291, 340, 341];
