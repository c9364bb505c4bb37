//! Independent TIFF writer: the oracle for everything that reads files.
use std::ops::Range;

use async_tiff::reader::Endianness;
use async_tiff::TagValue;

use crate::codecs;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Fmt {
    pub be: bool,
    pub big: bool,
}
pub const FMTS: [Fmt; 4] = [
    Fmt { be: false, big: false },
    Fmt { be: true, big: false },
    Fmt { be: false, big: true },
    Fmt { be: true, big: true },
];

impl Fmt {
    pub fn endianness(self) -> Endianness {
        if self.be {
            Endianness::BigEndian
        } else {
            Endianness::LittleEndian
        }
    }
    pub fn u16(self, v: u16) -> [u8; 2] {
        if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
    pub fn u32(self, v: u32) -> [u8; 4] {
        if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
    pub fn u64(self, v: u64) -> [u8; 8] {
        if self.be {
            v.to_be_bytes()
        } else {
            v.to_le_bytes()
        }
    }
    /// A count or offset field.
    pub fn off(self, v: u64) -> Vec<u8> {
        if self.big {
            self.u64(v).to_vec()
        } else {
            self.u32(u32::try_from(v).expect("offset fits")).to_vec()
        }
    }
    pub fn off_size(self) -> u64 {
        if self.big {
            8
        } else {
            4
        }
    }
    pub fn header(self, first: u64) -> Vec<u8> {
        let mut o = if self.be { b"MM".to_vec() } else { b"II".to_vec() };
        if self.big {
            o.extend(self.u16(43));
            o.extend(self.u16(8));
            o.extend(self.u16(0));
        } else {
            o.extend(self.u16(42));
        }
        o.extend(self.off(first));
        o
    }
    pub fn header_size(self) -> u64 {
        if self.big {
            16
        } else {
            8
        }
    }
    pub fn ifd_size(self, n: u64) -> u64 {
        if self.big {
            8 + 20 * n + 8
        } else {
            2 + 12 * n + 4
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Byte(Vec<u8>),
    Ascii(Vec<u8>),
    Short(Vec<u16>),
    Long(Vec<u32>),
    Rational(Vec<(u32, u32)>),
    SByte(Vec<i8>),
    Undefined(Vec<u8>),
    SShort(Vec<i16>),
    SLong(Vec<i32>),
    SRational(Vec<(i32, i32)>),
    Float(Vec<u32>),
    Double(Vec<u64>),
    Ifd(Vec<u32>),
    Long8(Vec<u64>),
    SLong8(Vec<i64>),
    Ifd8(Vec<u64>),
    /// Any field type, count and bytes.
    Raw(u16, u64, Vec<u8>),
}

fn listed(v: Vec<TagValue>) -> TagValue {
    match v.len() {
        1 => v.into_iter().next().unwrap(),
        _ => TagValue::List(v),
    }
}

impl V {
    pub fn ascii(s: &str) -> V {
        let mut b = s.as_bytes().to_vec();
        b.push(0);
        V::Ascii(b)
    }
    pub fn double(x: &[f64]) -> V {
        V::Double(x.iter().map(|f| f.to_bits()).collect())
    }
    pub fn ty(&self) -> u16 {
        match self {
            V::Byte(_) => 1,
            V::Ascii(_) => 2,
            V::Short(_) => 3,
            V::Long(_) => 4,
            V::Rational(_) => 5,
            V::SByte(_) => 6,
            V::Undefined(_) => 7,
            V::SShort(_) => 8,
            V::SLong(_) => 9,
            V::SRational(_) => 10,
            V::Float(_) => 11,
            V::Double(_) => 12,
            V::Ifd(_) => 13,
            V::Long8(_) => 16,
            V::SLong8(_) => 17,
            V::Ifd8(_) => 18,
            V::Raw(t, _, _) => *t,
        }
    }
    pub fn count(&self) -> u64 {
        (match self {
            V::Byte(v) | V::Ascii(v) | V::Undefined(v) => v.len(),
            V::Short(v) => v.len(),
            V::Long(v) | V::Float(v) | V::Ifd(v) => v.len(),
            V::Rational(v) => v.len(),
            V::SByte(v) => v.len(),
            V::SShort(v) => v.len(),
            V::SLong(v) => v.len(),
            V::SRational(v) => v.len(),
            V::Double(v) | V::Long8(v) | V::Ifd8(v) => v.len(),
            V::SLong8(v) => v.len(),
            V::Raw(_, c, _) => return *c,
        }) as u64
    }
    pub fn bytes(&self, f: Fmt) -> Vec<u8> {
        match self {
            V::Byte(v) | V::Ascii(v) | V::Undefined(v) => v.clone(),
            V::SByte(v) => v.iter().map(|x| *x as u8).collect(),
            V::Short(v) => v.iter().flat_map(|x| f.u16(*x)).collect(),
            V::SShort(v) => v.iter().flat_map(|x| f.u16(*x as u16)).collect(),
            V::Long(v) | V::Float(v) | V::Ifd(v) => v.iter().flat_map(|x| f.u32(*x)).collect(),
            V::SLong(v) => v.iter().flat_map(|x| f.u32(*x as u32)).collect(),
            V::Rational(v) => v
                .iter()
                .flat_map(|(a, b)| [f.u32(*a), f.u32(*b)].concat())
                .collect(),
            V::SRational(v) => v
                .iter()
                .flat_map(|(a, b)| [f.u32(*a as u32), f.u32(*b as u32)].concat())
                .collect(),
            V::Double(v) | V::Long8(v) | V::Ifd8(v) => v.iter().flat_map(|x| f.u64(*x)).collect(),
            V::SLong8(v) => v.iter().flat_map(|x| f.u64(*x as u64)).collect(),
            V::Raw(_, _, b) => b.clone(),
        }
    }
    /// What reading this value must yield.
    pub fn expect(&self) -> TagValue {
        use TagValue as T;
        if self.count() == 0 {
            return T::List(vec![]);
        }
        match self {
            V::Byte(v) | V::Undefined(v) => listed(v.iter().map(|x| T::Byte(*x)).collect()),
            V::Ascii(v) => {
                let n = v.iter().position(|b| *b == 0).unwrap_or(v.len());
                T::Ascii(String::from_utf8_lossy(&v[..n]).into_owned())
            }
            V::Short(v) => listed(v.iter().map(|x| T::Short(*x)).collect()),
            V::Long(v) => listed(v.iter().map(|x| T::Unsigned(*x)).collect()),
            V::Rational(v) => listed(v.iter().map(|x| T::Rational(x.0, x.1)).collect()),
            V::SByte(v) => listed(v.iter().map(|x| T::SignedByte(*x)).collect()),
            V::SShort(v) => listed(v.iter().map(|x| T::SignedShort(*x)).collect()),
            V::SLong(v) => listed(v.iter().map(|x| T::Signed(*x)).collect()),
            V::SRational(v) => listed(v.iter().map(|x| T::SRational(x.0, x.1)).collect()),
            V::Float(v) => listed(v.iter().map(|x| T::Float(f32::from_bits(*x))).collect()),
            V::Double(v) => listed(v.iter().map(|x| T::Double(f64::from_bits(*x))).collect()),
            V::Ifd(v) => listed(v.iter().map(|x| T::Ifd(*x)).collect()),
            V::Long8(v) => listed(v.iter().map(|x| T::UnsignedBig(*x)).collect()),
            V::SLong8(v) => listed(v.iter().map(|x| T::SignedBig(*x)).collect()),
            V::Ifd8(v) => listed(v.iter().map(|x| T::IfdBig(*x)).collect()),
            V::Raw(..) => panic!("raw values have no expectation"),
        }
    }
}

/// Bit-exact equality of tag values (NaN equals itself).
pub fn same(a: &TagValue, b: &TagValue) -> bool {
    use TagValue as T;
    match (a, b) {
        (T::Float(x), T::Float(y)) => x.to_bits() == y.to_bits(),
        (T::Double(x), T::Double(y)) => x.to_bits() == y.to_bits(),
        (T::List(x), T::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        _ => a == b,
    }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u16,
    pub val: V,
}

pub fn e(tag: u16, val: V) -> Entry {
    Entry { tag, val }
}

/// How a table of offsets or byte counts is written.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Tab {
    Short,
    Long,
    Long8,
}

#[derive(Clone, Debug, Default)]
pub struct IfdSpec {
    pub entries: Vec<Entry>,
    /// Tile or strip data, in table order.
    pub blocks: Vec<Vec<u8>>,
    /// Tags and kinds of the offset and count tables, if blocks are to be listed.
    pub tables: Option<(u16, u16, Tab, Tab)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Layout {
    /// Header, then each directory followed by its values, then all data.
    Cog,
    /// Header, all directories, then all values, then all data.
    IfdsFirst,
    /// Header, data, values, directories.
    DataFirst,
    /// Header, values of a directory before it, data last; directories in reverse order.
    Reversed,
    /// Data of each directory before it, values after it.
    Mixed,
}
pub const LAYOUTS: [Layout; 5] = [
    Layout::Cog,
    Layout::IfdsFirst,
    Layout::DataFirst,
    Layout::Reversed,
    Layout::Mixed,
];

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub fmt: Fmt,
    pub ifds: Vec<IfdSpec>,
    pub layout: Layout,
    /// Alignment of every piece.
    pub align: u64,
    /// Unused bytes before every piece.
    pub gap: u64,
    /// Write data blocks in reverse table order.
    pub rev_blocks: bool,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    pub ifd_off: Vec<u64>,
    pub blocks: Vec<Vec<Range<u64>>>,
    /// (directory, entry, range) of out-of-line values
    pub vals: Vec<(usize, usize, Range<u64>)>,
    /// End of the last metadata byte
    pub meta_end: u64,
    /// The entries of each directory as written, tables included, in file order
    pub entries: Vec<Vec<Entry>>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Piece {
    Ifd(usize),
    Val(usize, usize),
    Block(usize, usize),
}

fn tab(t: Tab, v: &[u64]) -> V {
    match t {
        Tab::Short => V::Short(v.iter().map(|x| u16::try_from(*x).expect("short table")).collect()),
        Tab::Long => V::Long(v.iter().map(|x| u32::try_from(*x).expect("long table")).collect()),
        Tab::Long8 => V::Long8(v.to_vec()),
    }
}

impl FileSpec {
    pub fn new(fmt: Fmt, ifds: Vec<IfdSpec>) -> FileSpec {
        FileSpec {
            fmt,
            ifds,
            layout: Layout::Cog,
            align: 2,
            gap: 0,
            rev_blocks: false,
        }
    }
    pub fn layout(mut self, l: Layout) -> Self {
        self.layout = l;
        self
    }
    fn with_tables(&self, offs: &[Vec<u64>]) -> Vec<Vec<Entry>> {
        self.ifds
            .iter()
            .zip(offs)
            .map(|(d, o)| {
                let mut es = d.entries.clone();
                if let Some((to, tc, ko, kc)) = d.tables {
                    es.push(e(to, tab(ko, o)));
                    let counts: Vec<u64> = d.blocks.iter().map(|b| b.len() as u64).collect();
                    es.push(e(tc, tab(kc, &counts)));
                    es.sort_by_key(|x| x.tag);
                }
                es
            })
            .collect()
    }
    pub fn build(&self) -> Built {
        let f = self.fmt;
        let zero: Vec<Vec<u64>> = self.ifds.iter().map(|d| vec![0; d.blocks.len()]).collect();
        let es = self.with_tables(&zero);
        let n = self.ifds.len();
        // which values are out of line
        let vals = |i: usize| -> Vec<Piece> {
            es[i]
                .iter()
                .enumerate()
                .filter(|(_, x)| x.val.bytes(f).len() as u64 > f.off_size())
                .map(|(j, _)| Piece::Val(i, j))
                .collect()
        };
        let blocks = |i: usize| -> Vec<Piece> {
            let mut v: Vec<Piece> = (0..self.ifds[i].blocks.len())
                .map(|k| Piece::Block(i, k))
                .collect();
            if self.rev_blocks {
                v.reverse();
            }
            v
        };
        let mut order = vec![];
        match self.layout {
            Layout::Cog => {
                for i in 0..n {
                    order.push(Piece::Ifd(i));
                    order.extend(vals(i));
                }
                for i in (0..n).rev() {
                    order.extend(blocks(i));
                }
            }
            Layout::IfdsFirst => {
                order.extend((0..n).map(Piece::Ifd));
                for i in 0..n {
                    order.extend(vals(i));
                }
                for i in 0..n {
                    order.extend(blocks(i));
                }
            }
            Layout::DataFirst => {
                for i in 0..n {
                    order.extend(blocks(i));
                }
                for i in 0..n {
                    order.extend(vals(i));
                }
                order.extend((0..n).map(Piece::Ifd));
            }
            Layout::Reversed => {
                for i in (0..n).rev() {
                    order.extend(vals(i));
                    order.push(Piece::Ifd(i));
                }
                for i in 0..n {
                    order.extend(blocks(i));
                }
            }
            Layout::Mixed => {
                for i in 0..n {
                    order.extend(blocks(i));
                    order.push(Piece::Ifd(i));
                    order.extend(vals(i));
                }
            }
        }
        let mut pos = f.header_size();
        let mut place = vec![];
        for p in &order {
            let len = match *p {
                Piece::Ifd(i) => f.ifd_size(es[i].len() as u64),
                Piece::Val(i, j) => es[i][j].val.bytes(f).len() as u64,
                Piece::Block(i, k) => self.ifds[i].blocks[k].len() as u64,
            };
            pos += self.gap;
            pos = pos.next_multiple_of(self.align);
            place.push((*p, pos..pos + len));
            pos += len;
        }
        let mut ifd_off = vec![0; n];
        let mut offs = zero;
        let mut ranges: Vec<Vec<Range<u64>>> =
            self.ifds.iter().map(|d| vec![0..0; d.blocks.len()]).collect();
        let mut val_ranges = vec![];
        let mut meta_end = f.header_size();
        for (p, r) in &place {
            match *p {
                Piece::Ifd(i) => {
                    ifd_off[i] = r.start;
                    meta_end = meta_end.max(r.end);
                }
                Piece::Val(i, j) => {
                    val_ranges.push((i, j, r.clone()));
                    meta_end = meta_end.max(r.end);
                }
                Piece::Block(i, k) => {
                    offs[i][k] = r.start;
                    ranges[i][k] = r.clone();
                }
            }
        }
        let es = self.with_tables(&offs);
        let mut out = vec![0xA5u8; pos as usize];
        out[..f.header_size() as usize]
            .copy_from_slice(&f.header(ifd_off.first().copied().unwrap_or(0)));
        for (p, r) in &place {
            let b = match *p {
                Piece::Ifd(i) => {
                    let at = |j: usize| {
                        val_ranges
                            .iter()
                            .find(|(a, b, _)| (*a, *b) == (i, j))
                            .map(|(_, _, r)| r.start)
                    };
                    let next = if i + 1 < n { ifd_off[i + 1] } else { 0 };
                    write_ifd(f, &es[i], at, next)
                }
                Piece::Val(i, j) => es[i][j].val.bytes(f),
                Piece::Block(i, k) => self.ifds[i].blocks[k].clone(),
            };
            out[r.start as usize..r.end as usize].copy_from_slice(&b);
        }
        Built {
            fmt: f,
            bytes: out,
            ifd_off,
            blocks: ranges,
            vals: val_ranges,
            meta_end,
            entries: es,
        }
    }
}

/// The bytes of a directory; `at` gives the position of each out-of-line value.
pub fn write_ifd(f: Fmt, es: &[Entry], at: impl Fn(usize) -> Option<u64>, next: u64) -> Vec<u8> {
    let mut o = vec![];
    if f.big {
        o.extend(f.u64(es.len() as u64));
    } else {
        o.extend(f.u16(es.len() as u16));
    }
    for (j, x) in es.iter().enumerate() {
        o.extend(f.u16(x.tag));
        o.extend(f.u16(x.val.ty()));
        o.extend(f.off(x.val.count()));
        let b = x.val.bytes(f);
        if b.len() as u64 > f.off_size() {
            o.extend(f.off(at(j).expect("position of value")));
        } else {
            let mut b = b;
            // Unused bytes of the value field are not zero: a reader must not look at them.
            b.resize(f.off_size() as usize, 0xEE);
            o.extend(b);
        }
    }
    o.extend(f.off(next));
    o
}

// ----------------------------------------------------------------------------------- images ----

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Comp {
    None,
    Deflate,
    OldDeflate,
    Lzw,
    Zstd,
    Lzma,
    WebP,
    /// Inner compression 0, 1 or 2; `None`: no LercParameters tag
    Lerc(Option<u32>),
    /// Tables in the JPEGTables tag?
    Jpeg(bool),
    J2k,
}
impl Comp {
    pub fn code(self) -> u16 {
        match self {
            Comp::None => 1,
            Comp::Deflate => 8,
            Comp::OldDeflate => 32946,
            Comp::Lzw => 5,
            Comp::Zstd => 50000,
            Comp::Lzma => 34925,
            Comp::WebP => 50001,
            Comp::Lerc(_) => 34887,
            Comp::Jpeg(_) => 7,
            Comp::J2k => 34712,
        }
    }
    /// Does the codec keep bytes as they are (so that predictors and byte order apply)?
    pub fn bytewise(self) -> bool {
        matches!(
            self,
            Comp::None | Comp::Deflate | Comp::OldDeflate | Comp::Lzw | Comp::Zstd | Comp::Lzma
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Img {
    pub fmt: Fmt,
    pub w: u32,
    pub h: u32,
    pub tw: u32,
    pub th: u32,
    pub spp: u16,
    pub planar: bool,
    /// 1 unsigned, 2 signed, 3 float
    pub sf: u16,
    pub bits: u16,
    pub comp: Comp,
    /// 1, 2, 3; 0: no Predictor tag
    pub pred: u16,
    pub seed: u64,
}

pub const CONST0: u64 = 0xC000_0000;
pub const CONST1: u64 = 0xC000_0001;
pub const TILED: u64 = 0xC000_0002;
pub const ROWS: u64 = 0xC000_0003;
/// A slope whose differences carry out of the lower half of a sample.
pub const SLOPE: u64 = 0xC000_0004;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Img {
    pub fn cols(&self) -> u32 {
        self.w.div_ceil(self.tw)
    }
    pub fn rows(&self) -> u32 {
        self.h.div_ceil(self.th)
    }
    pub fn photometric(&self) -> u16 {
        if self.spp >= 3 {
            2
        } else {
            1
        }
    }
    /// The stored sample at (band, row, column) of the padded image, as raw bits.
    pub fn sample(&self, b: u32, y: u32, x: u32) -> u64 {
        let (y, x) = match self.comp {
            Comp::Jpeg(_) => {
                // constant within the 8x8 blocks of each tile
                let (ty, tx) = (y / self.th, x / self.tw);
                (
                    ty * 1000 + (y % self.th) / 8,
                    tx * 1000 + (x % self.tw) / 8,
                )
            }
            _ => (y, x),
        };
        // seeds for images whose tiles have the same or few different samples
        let (b, y, x) = match self.seed {
            CONST0 | CONST1 => (0, 0, 0),
            TILED => (b, y % self.th, x % self.tw),
            ROWS => (b, 0, x),
            _ => (b, y, x),
        };
        let k = mix(self.seed ^ (b as u64) << 48 ^ (y as u64) << 24 ^ x as u64);
        let mask = if self.bits == 64 {
            u64::MAX
        } else {
            (1u64 << self.bits) - 1
        };
        // Every fourth sample is an extreme value.
        let v = match k & 15 {
            _ if self.seed == CONST0 => 0,
            _ if self.seed == CONST1 => mask,
            _ if self.seed == SLOPE => (x as u64 + 2 * y as u64 + b as u64).wrapping_mul((mask >> (self.bits / 2)) / 3 + 1),
            0 => 0,
            1 => mask,
            2 => 1u64 << (self.bits - 1),
            3 => mask >> 1,
            _ => k >> 8,
        } & mask;
        let v = match self.comp {
            // opaque everywhere: encoders leave the alpha channel out
            Comp::WebP if b == 3 && self.seed % 16 == 15 => 255,
            // alpha zero would allow the encoder to change the colours
            Comp::WebP if b == 3 => v | 1,
            // LERC stores numbers, not bit patterns: no NaN
            Comp::Lerc(_) if self.sf == 3 => {
                let n = (k >> 20) as i32 as f64 / 8.0;
                if self.bits == 32 {
                    ((n as f32).to_bits()) as u64
                } else {
                    n.to_bits()
                }
            }
            _ => v,
        };
        v & mask
    }
    fn tile_samples(&self, tx: u32, ty: u32, bands: Range<u32>, band_outer: bool) -> Vec<u64> {
        let mut v = vec![];
        let (y0, x0) = (ty * self.th, tx * self.tw);
        if band_outer {
            for b in bands {
                for y in 0..self.th {
                    for x in 0..self.tw {
                        v.push(self.sample(b, y0 + y, x0 + x));
                    }
                }
            }
        } else {
            for y in 0..self.th {
                for x in 0..self.tw {
                    for b in bands.clone() {
                        v.push(self.sample(b, y0 + y, x0 + x));
                    }
                }
            }
        }
        v
    }
    /// The samples the decoded tile must have, in order, as raw bits.
    pub fn tile_expect(&self, tx: u32, ty: u32) -> Vec<u64> {
        self.tile_samples(tx, ty, 0..self.spp as u32, self.planar)
    }
    pub fn shape(&self) -> [usize; 3] {
        let (s, w, h) = (self.spp as usize, self.tw as usize, self.th as usize);
        if self.planar {
            [s, h, w]
        } else {
            [h, w, s]
        }
    }
    /// The encoded block(s) of a tile: one, or one per band.
    pub fn tile_blocks(&self, tx: u32, ty: u32) -> Vec<Vec<u8>> {
        if self.planar {
            (0..self.spp as u32)
                .map(|b| self.encode(self.tile_samples(tx, ty, b..b + 1, true), 1, tx, ty, b))
                .collect()
        } else {
            let n = self.spp as u32;
            vec![self.encode(self.tile_samples(tx, ty, 0..n, false), n as usize, tx, ty, 0)]
        }
    }
    fn encode(&self, s: Vec<u64>, n: usize, tx: u32, ty: u32, b0: u32) -> Vec<u8> {
        let ne = || -> Vec<u8> { raw_bytes(&s, self.bits, cfg!(target_endian = "big")) };
        match self.comp {
            Comp::WebP => codecs::webp(&ne(), self.tw, self.th, n == 4),
            Comp::Lerc(i) => codecs::lerc(
                &ne(),
                self.sf,
                self.bits,
                self.tw as usize,
                self.th as usize,
                n,
                i.unwrap_or(0),
            ),
            Comp::Jpeg(t) => codecs::jpeg(self.tw as u16, self.th as u16, n as u8, !t, |c, bx, by| {
                self.sample(b0 + c as u32, ty * self.th + by * 8, tx * self.tw + bx * 8) as u8
            }),
            Comp::J2k => codecs::j2k_signed(self.tw, self.th, n as u32, self.bits as u32, self.sf == 2, |c, y, x| {
                let v = s[((y * self.tw + x) * n as u32 + c) as usize] as i32;
                if self.sf == 2 {
                    v << (32 - self.bits) >> (32 - self.bits)
                } else {
                    v
                }
            }),
            _ => {
                let raw = predict(&s, self.bits, n, self.tw as usize, self.pred, self.fmt.be);
                match self.comp {
                    Comp::None => raw,
                    Comp::Deflate | Comp::OldDeflate => codecs::deflate(&raw),
                    Comp::Lzw => codecs::lzw(&raw),
                    Comp::Zstd => codecs::zstd(&raw),
                    Comp::Lzma => codecs::xz(&raw),
                    _ => unreachable!(),
                }
            }
        }
    }
    /// The blocks in table order.
    pub fn blocks(&self) -> Vec<Vec<u8>> {
        let mut per: Vec<Vec<Vec<u8>>> = vec![];
        for ty in 0..self.rows() {
            for tx in 0..self.cols() {
                per.push(self.tile_blocks(tx, ty));
            }
        }
        if self.planar {
            (0..self.spp as usize)
                .flat_map(|b| per.iter().map(move |t| t[b].clone()).collect::<Vec<_>>())
                .collect()
        } else {
            per.into_iter().map(|mut t| t.remove(0)).collect()
        }
    }
    pub fn entries(&self) -> Vec<Entry> {
        let side = |n: u32| u16::try_from(n).map_or(V::Long(vec![n]), |n| V::Short(vec![n]));
        let mut es = vec![
            e(256, V::Long(vec![self.w])),
            e(257, V::Long(vec![self.h])),
            e(258, V::Short(vec![self.bits; self.spp as usize])),
            e(259, V::Short(vec![self.comp.code()])),
            e(262, V::Short(vec![self.photometric()])),
            e(277, V::Short(vec![self.spp])),
            e(284, V::Short(vec![if self.planar { 2 } else { 1 }])),
            e(322, side(self.tw)),
            e(323, side(self.th)),
            e(339, V::Short(vec![self.sf; self.spp as usize])),
        ];
        if self.pred != 0 {
            es.push(e(317, V::Short(vec![self.pred])));
        }
        if let Comp::Jpeg(true) = self.comp {
            es.push(e(347, V::Undefined(codecs::jpeg_tables())));
        }
        if let Comp::Lerc(Some(i)) = self.comp {
            es.push(e(0xC5F2, V::Long(vec![4, i])));
        }
        es.sort_by_key(|x| x.tag);
        es
    }
    pub fn ifd(&self) -> IfdSpec {
        let k = if self.fmt.big { Tab::Long8 } else { Tab::Long };
        IfdSpec {
            entries: self.entries(),
            blocks: self.blocks(),
            tables: Some((324, 325, k, Tab::Long)),
        }
    }
}

/// Serialise samples; one-bit samples are packed most significant bit first.
pub fn raw_bytes(s: &[u64], bits: u16, be: bool) -> Vec<u8> {
    let n = (bits / 8) as usize;
    if bits == 1 {
        return s
            .chunks(8)
            .map(|c| {
                c.iter()
                    .enumerate()
                    .fold(0u8, |a, (i, v)| a | ((*v as u8 & 1) << (7 - i)))
            })
            .collect();
    }
    s.iter()
        .flat_map(|v| {
            let mut b = v.to_le_bytes()[..n].to_vec();
            if be {
                b.reverse();
            }
            b
        })
        .collect()
}

/// Apply the predictor a writer applies (TIFF 6.0 section 14, TIFF technical note 3) to rows of
/// `width` pixels of `n` samples, and serialise.
pub fn predict(s: &[u64], bits: u16, n: usize, width: usize, pred: u16, be: bool) -> Vec<u8> {
    let row = width * n;
    let mask = if bits == 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    };
    match pred {
        0 | 1 => raw_bytes(s, bits, be),
        2 => {
            let mut out = vec![];
            for r in s.chunks(row) {
                let d: Vec<u64> = (0..r.len())
                    .map(|i| {
                        if i < n {
                            r[i]
                        } else {
                            r[i].wrapping_sub(r[i - n]) & mask
                        }
                    })
                    .collect();
                out.extend(raw_bytes(&d, bits, be));
            }
            out
        }
        3 => {
            let nb = (bits / 8) as usize;
            let mut out = vec![];
            for r in s.chunks(row) {
                let mut planes = vec![0u8; r.len() * nb];
                for (i, v) in r.iter().enumerate() {
                    let b = v.to_be_bytes();
                    for k in 0..nb {
                        planes[k * r.len() + i] = b[8 - nb + k];
                    }
                }
                for i in (n..planes.len()).rev() {
                    planes[i] = planes[i].wrapping_sub(planes[i - n]);
                }
                out.extend(planes);
            }
            out
        }
        _ => panic!("predictor"),
    }
}
