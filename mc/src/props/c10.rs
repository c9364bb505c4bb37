//! C10: each tag under its own accessor.
use std::collections::{BTreeMap, HashMap};

use async_tiff::reader::Endianness;
use async_tiff::tags::Tag;
use async_tiff::{ImageFileDirectory, TagValue};

use super::{about, base, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::sources::{Eof, Mem};
use crate::tiffw::{e, same, Entry, FileSpec, IfdSpec, FMTS, V};
use crate::Tier;

/// What an accessor shows, in a common form.
#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    N(Vec<u64>),
    /// bit patterns of doubles
    F(Vec<u64>),
    S(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    U32,
    U16,
    U16s,
    U32s,
    U64s,
    Text,
    F64s,
    Rat,
    Bytes,
    /// One code; the codes that have a meaning; what happens to others.
    Code(&'static [u16], Other),
    Codes(&'static [u16], Other),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Other {
    Kept,
    Error,
    /// A code without meaning is shown as absent, or refused.
    Dropped,
}

type Get = fn(&ImageFileDirectory) -> Option<Obs>;
fn n(v: Option<impl Into<u64>>) -> Option<Obs> {
    v.map(|x| Obs::N(vec![x.into()]))
}
fn ns<T: Copy + Into<u64>>(v: Option<&[T]>) -> Option<Obs> {
    v.map(|x| Obs::N(x.iter().map(|y| (*y).into()).collect()))
}
fn fs(v: Option<&[f64]>) -> Option<Obs> {
    v.map(|x| Obs::F(x.iter().map(|y| y.to_bits()).collect()))
}
fn s(v: Option<&str>) -> Option<Obs> {
    v.map(|x| Obs::S(x.to_string()))
}

const ACC: &[(u16, &str, Kind, Get)] = &[
    (254, "new_subfile_type", Kind::U32, |d| n(d.new_subfile_type())),
    (256, "image_width", Kind::U32, |d| n(Some(d.image_width()))),
    (257, "image_height", Kind::U32, |d| n(Some(d.image_height()))),
    (258, "bits_per_sample", Kind::U16s, |d| ns(Some(d.bits_per_sample()))),
    (259, "compression", Kind::Code(&[1, 5, 7, 8, 32946, 50000, 50001], Other::Kept), |d| n(Some(d.compression().to_u16()))),
    (262, "photometric_interpretation", Kind::Code(&[0, 1, 2, 3, 4, 5, 6, 8], Other::Error), |d| n(Some(d.photometric_interpretation().to_u16()))),
    (269, "document_name", Kind::Text, |d| s(d.document_name())),
    (270, "image_description", Kind::Text, |d| s(d.image_description())),
    (273, "strip_offsets", Kind::U64s, |d| ns(d.strip_offsets())),
    (274, "orientation", Kind::U16, |d| n(d.orientation())),
    (277, "samples_per_pixel", Kind::U16, |d| n(Some(d.samples_per_pixel()))),
    (278, "rows_per_strip", Kind::U32, |d| n(d.rows_per_strip())),
    (279, "strip_byte_counts", Kind::U64s, |d| ns(d.strip_byte_counts())),
    (280, "min_sample_value", Kind::U16s, |d| ns(d.min_sample_value())),
    (281, "max_sample_value", Kind::U16s, |d| ns(d.max_sample_value())),
    (282, "x_resolution", Kind::Rat, |d| d.x_resolution().map(|x| Obs::F(vec![x.to_bits()]))),
    (283, "y_resolution", Kind::Rat, |d| d.y_resolution().map(|x| Obs::F(vec![x.to_bits()]))),
    (284, "planar_configuration", Kind::Code(&[1, 2], Other::Error), |d| n(Some(d.planar_configuration().to_u16()))),
    (296, "resolution_unit", Kind::Code(&[1, 2, 3], Other::Dropped), |d| n(d.resolution_unit().map(|x| x.to_u16()))),
    (305, "software", Kind::Text, |d| s(d.software())),
    (306, "date_time", Kind::Text, |d| s(d.date_time())),
    (315, "artist", Kind::Text, |d| s(d.artist())),
    (316, "host_computer", Kind::Text, |d| s(d.host_computer())),
    (317, "predictor", Kind::Code(&[1, 2, 3], Other::Error), |d| n(d.predictor().map(|x| x.to_u16()))),
    (320, "colormap", Kind::U16s, |d| ns(d.colormap().map(|x| &x[..]))),
    (322, "tile_width", Kind::U32, |d| n(d.tile_width())),
    (323, "tile_height", Kind::U32, |d| n(d.tile_height())),
    (324, "tile_offsets", Kind::U64s, |d| ns(d.tile_offsets())),
    (325, "tile_byte_counts", Kind::U64s, |d| ns(d.tile_byte_counts())),
    (338, "extra_samples", Kind::Codes(&[0, 1, 2], Other::Error), |d| {
        d.extra_samples().map(|x| Obs::N(x.iter().map(|y| y.to_u16() as u64).collect()))
    }),
    (339, "sample_format", Kind::Codes(&[1, 2, 3, 4], Other::Kept), |d| {
        Some(Obs::N(d.sample_format().iter().map(|y| y.to_u16() as u64).collect()))
    }),
    (347, "jpeg_tables", Kind::Bytes, |d| ns(d.jpeg_tables())),
    (33432, "copyright", Kind::Text, |d| s(d.copyright())),
    (33550, "model_pixel_scale", Kind::F64s, |d| fs(d.model_pixel_scale())),
    (33922, "model_tiepoint", Kind::F64s, |d| fs(d.model_tiepoint())),
    (34264, "model_transformation", Kind::F64s, |d| fs(d.model_transformation())),
    (42112, "gdal_metadata", Kind::Text, |d| s(d.gdal_metadata())),
    (42113, "gdal_nodata", Kind::Text, |d| s(d.gdal_nodata())),
    (50674, "lerc_parameters", Kind::U32s, |d| ns(d.lerc_parameters())),
];
/// Tags that have no accessor of their own and are not kept either: they feed the GeoKeys (C11).
const GEO: [u16; 3] = [34735, 34736, 34737];
const MANDATORY: [u16; 5] = [256, 257, 258, 262, 277];

#[derive(Clone, PartialEq, Debug)]
enum Want {
    Absent,
    Is(Obs),
    /// An error, or exactly this.
    MayBe(Option<Obs>),
    MustErr,
    Any,
}

/// The integers a value holds, if it is made of integers; and whether their type is unsigned.
fn ints(v: &TagValue) -> Option<(Vec<i128>, bool)> {
    use TagValue as T;
    Some(match v {
        T::Byte(x) => (vec![*x as i128], true),
        T::Short(x) => (vec![*x as i128], true),
        T::Unsigned(x) => (vec![*x as i128], true),
        T::UnsignedBig(x) => (vec![*x as i128], true),
        T::SignedByte(x) => (vec![*x as i128], false),
        T::SignedShort(x) => (vec![*x as i128], false),
        T::Signed(x) => (vec![*x as i128], false),
        T::SignedBig(x) => (vec![*x as i128], false),
        T::Ifd(x) => (vec![*x as i128], false),
        T::IfdBig(x) => (vec![*x as i128], false),
        T::List(l) => {
            let mut o = vec![];
            let mut u = true;
            for x in l {
                if matches!(x, T::List(_)) {
                    return None;
                }
                let (a, b) = ints(x)?;
                o.extend(a);
                u &= b;
            }
            (o, u)
        }
        _ => return None,
    })
}

fn number(v: &TagValue, max: u64, list: bool) -> Want {
    match ints(v) {
        None => match v {
            // lists of numbers from text or a fraction: a convenience of the library
            TagValue::Ascii(_) | TagValue::Rational(..) if list => Want::Any,
            _ => Want::MustErr,
        },
        Some((x, unsigned)) => {
            if !list && x.len() != 1 {
                return Want::MustErr;
            }
            let o: Option<Vec<u64>> = x.iter().map(|y| u64::try_from(*y).ok().filter(|y| *y <= max)).collect();
            match o {
                None => Want::MustErr,
                Some(o) if unsigned => Want::Is(Obs::N(o)),
                Some(o) => Want::MayBe(Some(Obs::N(o))),
            }
        }
    }
}

fn want(k: Kind, v: &TagValue) -> Want {
    let codes = |w: Want, known: &[u16], other: Other| match &w {
        Want::Is(Obs::N(x)) | Want::MayBe(Some(Obs::N(x))) if !x.iter().all(|c| known.contains(&(*c as u16))) => match other {
            Other::Kept => w,
            Other::Error => Want::MustErr,
            Other::Dropped => Want::MayBe(None),
        },
        _ => w,
    };
    match k {
        Kind::U32 => number(v, u32::MAX as u64, false),
        Kind::U16 => number(v, u16::MAX as u64, false),
        Kind::U16s => number(v, u16::MAX as u64, true),
        Kind::U32s => number(v, u32::MAX as u64, true),
        Kind::U64s => number(v, u64::MAX, true),
        Kind::Code(c, o) => codes(number(v, u16::MAX as u64, false), c, o),
        Kind::Codes(c, o) => codes(number(v, u16::MAX as u64, true), c, o),
        Kind::Text => match v {
            TagValue::Ascii(s) => Want::Is(Obs::S(s.clone())),
            _ => Want::MustErr,
        },
        Kind::Bytes => match v {
            TagValue::Byte(b) => Want::Is(Obs::N(vec![*b as u64])),
            TagValue::List(l) if l.iter().all(|x| matches!(x, TagValue::Byte(_))) => number(v, 255, true),
            TagValue::Ascii(_) => Want::Any,
            _ => match number(v, 255, true) {
                Want::Is(o) => Want::MayBe(Some(o)),
                w => w,
            },
        },
        Kind::Rat => match v {
            TagValue::Rational(a, b) => Want::Is(Obs::F(vec![(*a as f64 / *b as f64).to_bits()])),
            TagValue::SRational(a, b) => Want::MayBe(Some(Obs::F(vec![(*a as f64 / *b as f64).to_bits()]))),
            TagValue::Float(x) => Want::MayBe(Some(Obs::F(vec![(*x as f64).to_bits()]))),
            TagValue::Double(x) => Want::MayBe(Some(Obs::F(vec![x.to_bits()]))),
            v => match ints(v) {
                Some((x, _)) if x.len() == 1 => Want::MayBe(Some(Obs::F(vec![(x[0] as f64).to_bits()]))),
                _ => Want::MustErr,
            },
        },
        Kind::F64s => {
            let one = |v: &TagValue| match v {
                TagValue::Double(x) => Some((x.to_bits(), true)),
                TagValue::Float(x) => Some(((*x as f64).to_bits(), false)),
                v => ints(v).filter(|x| x.0.len() == 1).map(|x| ((x.0[0] as f64).to_bits(), false)),
            };
            let l = match v {
                TagValue::List(l) => l.iter().map(one).collect::<Option<Vec<_>>>(),
                v => one(v).map(|x| vec![x]),
            };
            match l {
                None => Want::MustErr,
                Some(l) => {
                    let o = Obs::F(l.iter().map(|x| x.0).collect());
                    if l.iter().all(|x| x.1) {
                        Want::Is(o)
                    } else {
                        Want::MayBe(Some(o))
                    }
                }
            }
        }
    }
}

/// NaN payloads of computed quotients are not compared.
fn agree(a: &Option<Obs>, b: &Option<Obs>, k: Kind) -> bool {
    match (a, b, k) {
        (Some(Obs::F(x)), Some(Obs::F(y)), Kind::Rat) => {
            let (p, q) = (f64::from_bits(x[0]), f64::from_bits(y[0]));
            (p.is_nan() && q.is_nan()) || x == y
        }
        _ => a == b,
    }
}

/// Compare a directory (or the refusal of it) with the model.
fn check(ch: &mut Ch, m: &BTreeMap<u16, TagValue>, r: &Result<ImageFileDirectory, String>) -> Result<(), String> {
    let mut must_err: Option<String> = None;
    let mut may_err = false;
    for t in MANDATORY {
        if !m.contains_key(&t) {
            // These two have a default in the specification: accepting the file with it is right too.
            if matches!(t, 258 | 277) {
                may_err = true;
            } else {
                must_err = Some(format!("mandatory tag {t} is missing"));
            }
        }
    }
    let mut wants = vec![];
    for (tag, name, kind, get) in ACC {
        let w = match m.get(tag) {
            None => match tag {
                259 | 284 => Want::Is(Obs::N(vec![1])),
                258 | 277 => Want::Any,
                339 => match m.get(&277).and_then(ints) {
                    Some((x, _)) if x.len() == 1 && x[0] >= 0 => Want::Is(Obs::N(vec![1; x[0] as usize & 0xffff])),
                    _ => Want::Any,
                },
                _ => Want::Absent,
            },
            Some(v) => want(*kind, v),
        };
        match w {
            Want::MustErr => must_err = Some(format!("tag {tag} ({name}) holds {:?}", m[tag])),
            Want::MayBe(_) | Want::Any => may_err = true,
            _ => {}
        }
        wants.push((*tag, *name, *kind, *get, w));
    }
    match r {
        Err(x) => {
            ensure!(must_err.is_some() || may_err, "the directory {m:?} is refused: {x}");
            ch.observe("error");
        }
        Ok(d) => {
            if let Some(w) = must_err {
                return Err(format!("the directory is accepted although {w}"));
            }
            for (tag, name, kind, get, w) in wants {
                let got = get(d);
                let ok = match &w {
                    Want::Absent => got.is_none(),
                    Want::Is(o) => agree(&got, &Some(o.clone()), kind),
                    Want::MayBe(o) => agree(&got, o, kind),
                    Want::Any => true,
                    Want::MustErr => false,
                };
                ensure!(ok, "{name} (tag {tag}, stored {:?}) shows {got:?}", m.get(&tag));
                ch.observe(format!("{got:?}"));
            }
            let mut others = 0;
            for (tag, v) in m {
                if ACC.iter().any(|a| a.0 == *tag) || GEO.contains(tag) {
                    continue;
                }
                others += 1;
                match d.other_tags().get(&Tag::from_u16_exhaustive(*tag)) {
                    Some(g) => ensure!(same(g, v), "other tag {tag} holds {g:?} instead of {v:?}"),
                    None => return Err(format!("tag {tag} is lost; other tags: {:?}", d.other_tags())),
                }
            }
            ensure!(d.other_tags().len() == others, "{} other tags instead of {others}: {:?}", d.other_tags().len(), d.other_tags());
        }
    }
    Ok(())
}

fn model(es: &[Entry]) -> BTreeMap<u16, TagValue> {
    es.iter().map(|x| (x.tag, x.val.expect())).collect()
}

/// Through a file.
fn by_file(ch: &mut Ch, f: usize, es: Vec<Entry>) -> Result<(), String> {
    let fmt = FMTS[f];
    let m = model(&es);
    let b = FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]).build();
    ch.note(|| format!("{fmt:?} {:?}", b.entries[0]));
    let r = open(&Mem::new(b.bytes).eof(Eof::Error)).map_err(|x| x.to_string());
    ch.step((f, format!("{m:?}")));
    let r = r.map(|t| t.ifds()[0].clone());
    check(ch, &m, &r)
}

/// Through `from_tags`, with a map that yields `first` before the other tags of `order` after it,
/// and so on: every relative order of processing can be asked for.
pub fn ordered(m: &BTreeMap<u16, TagValue>, order: &[u16]) -> HashMap<Tag, TagValue> {
    for i in 0..200_000 {
        let mut h: HashMap<Tag, TagValue> = HashMap::with_capacity(m.len() + i % 3 * 20);
        for (t, v) in m {
            h.insert(Tag::from_u16_exhaustive(*t), v.clone());
        }
        let seen: Vec<u16> = h.keys().map(|t| t.to_u16()).filter(|t| order.contains(t)).collect();
        if seen == order {
            return h;
        }
    }
    panic!("no map with this order");
}

fn replace(es: &mut Vec<Entry>, tag: u16, v: V) {
    es.retain(|x| x.tag != tag);
    es.push(e(tag, v));
    es.sort_by_key(|x| x.tag);
}

/// A well-formed value of the tag, told apart from every other tag's.
pub fn typical(tag: u16, k: u64) -> V {
    let kind = ACC.iter().find(|a| a.0 == tag).map(|a| a.2);
    let x = tag as u64 * 7 + k;
    match kind {
        None => V::Short(vec![x as u16, k as u16]),
        Some(Kind::U32) => V::Long(vec![x as u32 % 4000 + 1]),
        // a small number: it sizes defaults
        Some(Kind::U16) => V::Short(vec![if tag == 277 { 1 + (k % 5) as u16 } else { x as u16 }]),
        Some(Kind::U16s) => V::Short((0..=k % 3 + 1).map(|i| (x + i) as u16).collect()),
        Some(Kind::U32s) => V::Long((0..=k % 3 + 1).map(|i| (x + i) as u32).collect()),
        Some(Kind::U64s) => V::Long((0..=k % 3 + 1).map(|i| (x * 9 + i) as u32).collect()),
        Some(Kind::Text) => V::ascii(&format!("text of {tag}, {k}")),
        Some(Kind::F64s) => V::double(&[x as f64 / 3.0, -(x as f64), 0.5]),
        Some(Kind::Rat) => V::Rational(vec![(x as u32, 3 + k as u32)]),
        Some(Kind::Bytes) => V::Undefined((0..5 + k).map(|i| (x + i) as u8).collect()),
        Some(Kind::Code(c, _)) => V::Short(vec![c[k as usize % c.len()]]),
        Some(Kind::Codes(c, _)) => V::Short((0..k as usize % 3 + 1).map(|i| c[(k as usize + i) % c.len()]).collect()),
    }
}

pub fn all_tags() -> Vec<u16> {
    let mut t: Vec<u16> = ACC.iter().map(|a| a.0).collect();
    t.extend([255, 263, 264, 265, 266, 271, 272, 288, 289, 290, 291, 285, 301, 318, 330, 340, 341, 512, 530, 532, 34665, 34853, 65000]);
    t
}

/// Values of every field type around the limits of every number type.
pub fn palette() -> Vec<V> {
    let mut o = vec![];
    for x in [0u64, 1, 2, 3, 4, 8, 9, 127, 255, 256, 32767, 32768, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX] {
        if x < 1 << 8 {
            o.push(V::Byte(vec![x as u8]));
            o.push(V::Undefined(vec![x as u8]));
        }
        if x < 1 << 16 {
            o.push(V::Short(vec![x as u16]));
        }
        if x < 1 << 32 {
            o.push(V::Long(vec![x as u32]));
            o.push(V::Ifd(vec![x as u32]));
        }
        o.push(V::Long8(vec![x]));
        o.push(V::SLong8(vec![x as i64]));
        if x == 2 || x == 1 << 32 {
            o.push(V::Ifd8(vec![x]));
        }
    }
    o.extend([
        V::SByte(vec![-1]),
        V::SByte(vec![1]),
        V::SShort(vec![-1]),
        V::SShort(vec![2]),
        V::SLong(vec![-1]),
        V::SLong(vec![3]),
        V::SLong(vec![i32::MIN]),
        V::Float(vec![1.5f32.to_bits()]),
        V::Double(vec![2f64.to_bits()]),
        V::Double(vec![(-0.1f64).to_bits()]),
        V::Rational(vec![(1, 3)]),
        V::Rational(vec![(0, 0)]),
        V::Rational(vec![(u32::MAX, 1)]),
        V::Rational(vec![(7, 2), (5, 3)]),
        V::SRational(vec![(-1, 3)]),
        V::ascii("1"),
        V::ascii(""),
        V::ascii("some text, longer"),
        V::ascii("  -9999.0 \t "),
        V::ascii("\n<A|B>||\r\n"),
        V::ascii("Grösse µ 漢"),
        V::ascii("NaN"),
        V::ascii("-1.7976931348623157e+308"),
        V::ascii("2024:01:02 03:04:05"),
        V::ascii("0"),
        V::ascii("UPPER lower"),
        V::Ascii(b"no terminator".to_vec()),
        V::Byte(vec![1, 2, 3]),
        V::Byte(vec![]),
        V::Short(vec![]),
        V::Short(vec![1, 1, 1]),
        V::Short(vec![2, 1, 0]),
        V::Short(vec![3, 2, 2, 1, 65535]),
        V::Long(vec![1, 2]),
        V::Long(vec![65535, 65536]),
        V::Long8(vec![1, 1 << 32]),
        V::Long8(vec![1 << 40, 3, u64::MAX]),
        V::SLong(vec![1, -1]),
        V::SShort(vec![1, 2]),
        V::Float(vec![0, 1f32.to_bits()]),
        V::double(&[]),
        V::double(&[1.0, f64::NAN, -0.0, f64::INFINITY]),
        V::double(&[0.1; 16]),
        V::Undefined((0..40).collect()),
        V::Short((0..768).collect()),
    ]);
    o
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let tags = all_tags();
    let th = t.thorough();
    let pal = palette();
    let (t1, t2, t3, t4, t5) = (tags.clone(), tags.clone(), tags.clone(), tags.clone(), tags.clone());
    let p2 = pal.clone();
    let npal = pal.len();
    let ntags = tags.len();
    let mut bodies = vec![
        body("each tag with each value, alone", move |ch| {
            let f = ch.choose(4);
            let tag = ch.pick(&tags);
            let v = ch.pick(&pal);
            if tag == 277 {
                // the default of SampleFormat is as long as this says: keep it small
                let x = ints(&v.expect());
                if x.is_some_and(|x| x.0.iter().any(|y| *y > 40_000 && *y < 65_536)) {
                    return Ok(());
                }
            }
            let mut es = base();
            replace(&mut es, tag, v);
            by_file(ch, f, es)
        }),
        body("each tag with each long value, alone", move |ch| {
            let tag = ch.pick(&t5);
            let f = if th { ch.choose(4) } else { ch.choose(2) * 3 };
            let ns: &[usize] = match (th, tag) {
                (true, _) => &[255, 256, 257, 769, 4096, 65_535, 65_536, 70_000, 196_608],
                (_, 320) => &[769, 196_608],
                _ => &[257, 70_000],
            };
            let n = ch.pick(ns);
            let v = match ch.choose(6) {
                0 => V::ascii(&(0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>()),
                1 => V::Short((0..n).map(|i| (i * 7) as u16 % 3 + 1).collect()),
                2 => V::Short((0..n).map(|i| (i * 7) as u16).collect()),
                3 => V::Long((0..n).map(|i| (i * 70_001) as u32).collect()),
                4 => V::Undefined((0..n).map(|i| (i * 7) as u8).collect()),
                _ => V::double(&(0..n).map(|i| i as f64 / 7.0).collect::<Vec<_>>()),
            };
            let mut es = base();
            replace(&mut es, tag, v);
            by_file(ch, f, es)
        }),
        body("every 16-bit number as a tag without accessor", move |ch| {
            let tag = ch.choose(1 << 16) as u16;
            if MANDATORY.contains(&tag) || GEO.contains(&tag) || ACC.iter().any(|a| a.0 == tag) {
                return Ok(());
            }
            let mut es = base();
            let v = if tag % 2 == 0 { V::Short(vec![tag ^ 0x5555]) } else { V::ascii("kept unchanged") };
            replace(&mut es, tag, v);
            by_file(ch, (tag % 4) as usize, es)
        }),
        body("every 16-bit code of the coded tags", move |ch| {
            let code = ch.choose(1 << 16) as u16;
            let tag = ch.pick(&[259u16, 262, 284, 296, 317, 338, 339]);
            let mut es = base();
            replace(&mut es, tag, if code % 2 == 0 { V::Short(vec![code]) } else { V::Long(vec![code as u32]) });
            by_file(ch, (code % 4) as usize, es)
        }),
        body("every pair of tags, in both orders of processing", move |ch| {
            let i = ch.choose(t1.len());
            let j = ch.choose(t1.len());
            if i == j {
                return Ok(());
            }
            let k = ch.choose(t.sel(2, 6)) as u64;
            let (a, b) = (t1[i], t1[j]);
            let mut es = base();
            replace(&mut es, a, typical(a, k));
            replace(&mut es, b, typical(b, k + 1));
            let m = model(&es);
            ch.note(|| format!("from_tags, {a} before {b}: {m:?}"));
            let r = ImageFileDirectory::from_tags(ordered(&m, &[a, b]), Endianness::LittleEndian).map_err(|x| x.to_string());
            ch.step((i, j, k));
            check(ch, &m, &r)
        }),
        body("all tags at once, and all but one or two", move |ch| {
            let f = ch.choose(4);
            let k = ch.choose(t.sel(3, 8)) as u64;
            let a = ch.choose(t2.len() + 1);
            let b = if a == 0 { 0 } else { ch.choose(a) };
            let mut es: Vec<Entry> = t2
                .iter()
                .enumerate()
                .filter(|(i, _)| i + 1 != a && i + 1 != b)
                .map(|(_, tag)| e(*tag, typical(*tag, k)))
                .collect();
            es.sort_by_key(|x| x.tag);
            by_file(ch, f, es)
        }),
        body("a wrong kind among all tags is noticed in every position", move |ch| {
            let tag = ch.pick(&t3);
            let v = ch.pick(&p2);
            let back = ch.flag();
            if tag == 277 && ints(&v.expect()).is_some_and(|x| x.0.iter().any(|y| *y > 40_000 && *y < 65_536)) {
                return Ok(());
            }
            let mut es: Vec<Entry> = t3.iter().map(|x| e(*x, typical(*x, 1))).collect();
            replace(&mut es, tag, v);
            if back {
                // unsorted directories are read all the same
                es.reverse();
            }
            by_file(ch, 3, es)
        }),
        body("defaults that depend on the number of samples, in every order", move |ch| {
            let spp = ch.choose(t.sel(9, 40)) as u16;
            let with_sf = ch.choose(4);
            let planar = ch.choose(3) as u16;
            let comp = ch.flag();
            let perm = [[277u16, 339, 258], [277, 258, 339], [339, 277, 258], [339, 258, 277], [258, 277, 339], [258, 339, 277]][ch.choose(6)];
            let mut es = base();
            replace(&mut es, 277, V::Short(vec![spp]));
            replace(&mut es, 258, V::Short(vec![16; spp.max(1) as usize]));
            if with_sf > 0 {
                replace(&mut es, 339, V::Short(vec![with_sf as u16; spp.max(1) as usize]));
            }
            if planar > 0 {
                replace(&mut es, 284, V::Short(vec![planar]));
            }
            if comp {
                replace(&mut es, 259, V::Short(vec![8]));
            }
            let m = model(&es);
            let order: Vec<u16> = perm.iter().copied().filter(|x| m.contains_key(x)).collect();
            ch.note(|| format!("from_tags, order {order:?}: {m:?}"));
            let r = ImageFileDirectory::from_tags(ordered(&m, &order), Endianness::BigEndian).map_err(|x| x.to_string());
            ch.step((spp, with_sf, planar, comp, order));
            check(ch, &m, &r)
        }),
        body("every subset of the mandatory tags", move |ch| {
            let f = ch.choose(4);
            let s = ch.choose(32);
            let extra = ch.choose(t4.len() + 1);
            let mut es: Vec<Entry> = base().into_iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| x.1).collect();
            if extra > 0 && !MANDATORY.contains(&t4[extra - 1]) {
                replace(&mut es, t4[extra - 1], typical(t4[extra - 1], 2));
            }
            es.sort_by_key(|x| x.tag);
            by_file(ch, f, es)
        }),
    ];
    if t.thorough() {
        let (ta, pa) = (all_tags(), palette());
        bodies.push(body("every pair of tags with every pair of values", move |ch| {
            let i = ch.choose(ACC.len());
            let j = ch.choose(i + 1);
            if i == j {
                return Ok(());
            }
            let (a, b) = (ta[i], ta[j]);
            let (v, w) = (ch.pick(&pa), ch.pick(&pa));
            for (x, y) in [(a, &v), (b, &w)] {
                if x == 277 && ints(&y.expect()).is_some_and(|x| x.0.iter().any(|y| *y > 40_000 && *y < 65_536)) {
                    return Ok(());
                }
            }
            let mut es = base();
            replace(&mut es, a, v);
            replace(&mut es, b, w);
            by_file(ch, 2, es)
        }));
    }
    (
        bodies,
        about(
            format!("{ntags} tags x {npal} values of all field types; all 65536 tag numbers; all 65536 codes of 7 coded tags; all ordered pairs of tags under both processing orders; all but any two tags; every subset of the mandatory tags"),
            &["no tag occurs twice in a directory", "lists of numbers written as text or as one fraction are not judged", "BitsPerSample and SamplesPerPixel may default or be required"],
        ),
    )
}
