//! One tile with given parameters and stored bytes, fetched through the library.
use std::collections::HashMap;

use async_tiff::reader::Endianness;
use async_tiff::tags::Tag;
use async_tiff::{ImageFileDirectory, TagValue, Tile};

use crate::exec::block_on;
use crate::sources::{Eof, Mem};
use crate::tiffw::{e, Entry, V};

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Spec {
    pub be: bool,
    pub w: u32,
    pub h: u32,
    pub spp: u16,
    pub planar: bool,
    pub sf: Vec<u16>,
    pub bits: Vec<u16>,
    pub comp: u16,
    pub pred: u16,
    pub photometric: u16,
    pub jpeg: Option<Vec<u8>>,
    pub lerc: Option<Vec<u32>>,
    /// Indices into `unrelated()`
    pub ctx: Vec<usize>,
}

pub fn shorts(v: &[u16]) -> TagValue {
    match v {
        [x] => TagValue::Short(*x),
        _ => TagValue::List(v.iter().map(|x| TagValue::Short(*x)).collect()),
    }
}

impl Spec {
    pub fn new(w: u32, h: u32, spp: u16, planar: bool, sf: u16, bits: u16) -> Spec {
        Spec {
            be: false,
            w,
            h,
            spp,
            planar,
            sf: vec![sf; spp as usize],
            bits: vec![bits; spp as usize],
            comp: 1,
            pred: 0,
            photometric: 1,
            jpeg: None,
            lerc: None,
            ctx: vec![],
        }
    }
    pub fn shape(&self) -> [usize; 3] {
        let (s, w, h) = (self.spp as usize, self.w as usize, self.h as usize);
        if self.planar {
            [s, h, w]
        } else {
            [h, w, s]
        }
    }
    pub fn ifd(&self, lens: &[u64]) -> Result<ImageFileDirectory, String> {
        let mut m: HashMap<Tag, TagValue> = HashMap::new();
        let long = |x: u32| TagValue::Unsigned(x);
        m.insert(Tag::ImageWidth, long(self.w));
        m.insert(Tag::ImageLength, long(self.h));
        m.insert(Tag::TileWidth, long(self.w));
        m.insert(Tag::TileLength, long(self.h));
        m.insert(Tag::BitsPerSample, shorts(&self.bits));
        m.insert(Tag::SampleFormat, shorts(&self.sf));
        m.insert(Tag::PhotometricInterpretation, TagValue::Short(self.photometric));
        m.insert(Tag::SamplesPerPixel, TagValue::Short(self.spp));
        m.insert(Tag::PlanarConfiguration, TagValue::Short(1 + self.planar as u16));
        m.insert(Tag::Compression, TagValue::Short(self.comp));
        if self.pred > 0 {
            m.insert(Tag::Predictor, TagValue::Short(self.pred));
        }
        if let Some(j) = &self.jpeg {
            m.insert(Tag::JPEGTables, TagValue::List(j.iter().map(|b| TagValue::Byte(*b)).collect()));
        }
        if let Some(l) = &self.lerc {
            m.insert(Tag::LercParameters, TagValue::List(l.iter().map(|b| TagValue::Unsigned(*b)).collect()));
        }
        let mut offs = vec![];
        let mut at = 0;
        for n in lens {
            offs.push(TagValue::UnsignedBig(at));
            at += n;
        }
        m.insert(Tag::TileOffsets, TagValue::List(offs));
        m.insert(Tag::TileByteCounts, TagValue::List(lens.iter().map(|n| TagValue::UnsignedBig(*n)).collect()));
        if !self.ctx.is_empty() {
            let u = unrelated();
            for k in &self.ctx {
                m.insert(Tag::from_u16_exhaustive(u[*k].tag), u[*k].val.expect());
            }
        }
        let e = if self.be { Endianness::BigEndian } else { Endianness::LittleEndian };
        ImageFileDirectory::from_tags(m, e).map_err(|e| e.to_string())
    }
    pub fn fetch(&self, blocks: &[Vec<u8>]) -> Result<Tile, String> {
        let lens: Vec<u64> = blocks.iter().map(|b| b.len() as u64).collect();
        let d = self.ifd(&lens)?;
        let m = Mem::new(blocks.concat()).eof(Eof::Error);
        block_on(d.fetch_tile(0, 0, &m)).map_err(|e| e.to_string())
    }
}

/// Entries that have no say in where tiles lie and what their samples are.
pub fn unrelated() -> Vec<Entry> {
    let s = |t: u16, v: &[u16]| e(t, V::Short(v.to_vec()));
    let mut o = vec![];
    for v in [0u32, 1, 2, 4, 5] {
        o.push(e(254, V::Long(vec![v])));
    }
    for v in 1..=3 {
        o.push(s(255, &[v]));
    }
    for v in [0, 1, 2, 3, 4, 5, 6, 8] {
        o.push(s(262, &[v]));
    }
    for v in 1..=8 {
        o.push(s(274, &[v]));
    }
    for v in [&[0u16][..], &[1], &[2], &[2, 2]] {
        o.push(s(338, v));
    }
    for v in [&[1u16, 1][..], &[2, 1], &[2, 2], &[4, 4]] {
        o.push(s(530, v));
    }
    for v in [&[0u16][..], &[255], &[1, 2, 3]] {
        o.push(s(280, v));
        o.push(s(281, v));
    }
    o.extend([
        s(263, &[1]),
        s(264, &[2]),
        s(265, &[2]),
        e(269, V::ascii("doc")),
        e(270, V::ascii("<OME xmlns=\"x\"/>")),
        e(271, V::ascii("make")),
        e(272, V::ascii("model")),
        s(273, &[9]),
        e(273, V::Long(vec![70_000, 80_000])),
        s(278, &[1]),
        e(278, V::Long(vec![u32::MAX])),
        s(279, &[3]),
        e(282, V::Rational(vec![(72, 1)])),
        e(283, V::Rational(vec![(300, 7)])),
        e(285, V::ascii("page")),
        e(288, V::Long(vec![7])),
        e(289, V::Long(vec![7])),
        s(296, &[3]),
        s(297, &[1, 2]),
        s(301, &[1; 16]),
        e(305, V::ascii("GDAL")),
        e(306, V::ascii("2024:01:02 03:04:05")),
        e(315, V::ascii("a")),
        e(316, V::ascii("h")),
        s(320, &[5; 12]),
        e(330, V::Long(vec![8, 9])),
        s(332, &[1]),
        s(334, &[4]),
        e(340, V::Double(vec![0])),
        e(341, V::Double(vec![0])),
        e(347, V::Undefined(vec![0xff, 0xd8, 0xff, 0xd9])),
        e(513, V::Long(vec![9])),
        e(514, V::Long(vec![9])),
        s(531, &[2]),
        e(532, V::Rational(vec![(0, 1), (255, 1), (128, 1), (255, 1), (128, 1), (255, 1)])),
        e(700, V::Byte(b"<x/>".to_vec())),
        e(32995, V::Short(vec![1])),
        e(33432, V::ascii("(c)")),
        e(33550, V::double(&[1.0, 1.0, 0.0])),
        e(33922, V::double(&[0.0; 6])),
        e(34264, V::double(&[1.0; 16])),
        s(34735, &[1, 1, 0, 1, 1024, 0, 1, 1]),
        e(34736, V::double(&[1.5])),
        e(34737, V::ascii("x|")),
        e(42112, V::ascii("<GDALMetadata/>")),
        e(42113, V::ascii("0")),
        e(42113, V::ascii("255")),
        e(50674, V::Long(vec![4, 1])),
        e(50844, V::ascii("rpc")),
        e(65000, V::Short(vec![1, 2, 3])),
    ]);
    o
}
