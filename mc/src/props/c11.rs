//! C11: GeoKeys.
use std::collections::BTreeMap;

use async_tiff::geo::GeoKeyDirectory;
use async_tiff::reader::Endianness;
use async_tiff::ImageFileDirectory;

use super::c10::ordered;
use super::{about, base, open, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::sources::{Eof, Mem};
use crate::tiffw::{e, Entry, FileSpec, IfdSpec, FMTS, V};
use crate::Tier;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    N(u16),
    S(String),
    F(u64),
}
pub type Get = fn(&GeoKeyDirectory) -> Option<Val>;
macro_rules! keys {
    ($($id:literal $f:ident $k:ident),* $(,)?) => {
        &[$(($id, stringify!($f), keys!(@kind $k), |g| keys!(@get $k, g.$f))),*]
    };
    (@kind n) => { 'n' };
    (@kind s) => { 's' };
    (@kind f) => { 'f' };
    (@get n, $e:expr) => { $e.map(Val::N) };
    (@get s, $e:expr) => { $e.clone().map(Val::S) };
    (@get f, $e:expr) => { $e.map(|x: f64| Val::F(x.to_bits())) };
}
/// The GeoTIFF key register (OGC 19-008r4, annex).
#[rustfmt::skip]
pub const KEYS: &[(u16, &str, char, Get)] = keys![
    1024 model_type n, 1025 raster_type n, 1026 citation s,
    2048 geographic_type n, 2049 geog_citation s, 2050 geog_geodetic_datum n,
    2051 geog_prime_meridian n, 2052 geog_linear_units n, 2053 geog_linear_unit_size f,
    2054 geog_angular_units n, 2055 geog_angular_unit_size f, 2056 geog_ellipsoid n,
    2057 geog_semi_major_axis f, 2058 geog_semi_minor_axis f, 2059 geog_inv_flattening f,
    2060 geog_azimuth_units n, 2061 geog_prime_meridian_long f,
    3072 projected_type n, 3073 proj_citation s, 3074 projection n, 3075 proj_coord_trans n,
    3076 proj_linear_units n, 3077 proj_linear_unit_size f, 3078 proj_std_parallel1 f,
    3079 proj_std_parallel2 f, 3080 proj_nat_origin_long f, 3081 proj_nat_origin_lat f,
    3082 proj_false_easting f, 3083 proj_false_northing f, 3084 proj_false_origin_long f,
    3085 proj_false_origin_lat f, 3086 proj_false_origin_easting f,
    3087 proj_false_origin_northing f, 3088 proj_center_long f, 3089 proj_center_lat f,
    3090 proj_center_easting f, 3091 proj_center_northing f, 3092 proj_scale_at_nat_origin f,
    3093 proj_scale_at_center f, 3094 proj_azimuth_angle f, 3095 proj_straight_vert_pole_long f,
    4096 vertical n, 4097 vertical_citation s, 4098 vertical_datum n, 4099 vertical_units n,
];

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
struct Key {
    id: u16,
    loc: u16,
    count: u16,
    off: u16,
}

struct Geo {
    head: [u16; 3],
    keys: Vec<Key>,
    /// Shorts after the keys (the directory may hold values of its own)
    tail: Vec<u16>,
    text: Option<String>,
    nums: Option<Vec<f64>>,
}

enum Want {
    Dir(BTreeMap<u16, Val>),
    /// An error or, if it is accepted, no wrong value for the keys that are right.
    ErrOr(BTreeMap<u16, Val>),
    MustErr(String),
}

impl Geo {
    fn new(keys: Vec<Key>) -> Geo {
        Geo { head: [1, 1, 0], keys, tail: vec![], text: None, nums: None }
    }
    fn data(&self) -> Vec<u16> {
        let mut d = self.head.to_vec();
        d.push(self.keys.len() as u16);
        for k in &self.keys {
            d.extend([k.id, k.loc, k.count, k.off]);
        }
        d.extend(&self.tail);
        d
    }
    fn entries(&self) -> Vec<Entry> {
        let mut es = base();
        es.push(e(34735, V::Short(self.data())));
        if let Some(n) = &self.nums {
            es.push(e(34736, V::double(n)));
        }
        if let Some(s) = &self.text {
            es.push(e(34737, V::ascii(s)));
        }
        es
    }
    /// What the directory says, from the GeoTIFF specification.
    fn want(&self) -> Want {
        let mut out = BTreeMap::new();
        let mut soft = false;
        for k in &self.keys {
            let Some((_, name, kind, _)) = KEYS.iter().find(|x| x.0 == k.id) else {
                continue;
            };
            let v = match k.loc {
                0 => Val::N(k.off),
                34736 => {
                    let r = self.nums.as_ref().and_then(|n| n.get(k.off as usize..k.off as usize + k.count as usize));
                    match r {
                        Some([x]) => Val::F(x.to_bits()),
                        Some(_) => return Want::MustErr(format!("{name} holds {} doubles", k.count)),
                        None => return Want::MustErr(format!("{name} lies outside the doubles")),
                    }
                }
                34737 => {
                    let r = self.text.as_ref().and_then(|n| n.get(k.off as usize..k.off as usize + k.count as usize));
                    match r {
                        Some(x) => Val::S(x.strip_suffix('|').unwrap_or(x).to_string()),
                        None => return Want::MustErr(format!("{name} lies outside the text")),
                    }
                }
                // values elsewhere: in the directory itself or in a private tag. Not supported.
                _ => {
                    soft = true;
                    continue;
                }
            };
            let ok = matches!((&v, kind), (Val::N(_), 'n') | (Val::S(_), 's') | (Val::F(_), 'f'));
            if !ok {
                return Want::MustErr(format!("{name} is of kind {kind} and holds {v:?}"));
            }
            out.insert(k.id, v);
        }
        if soft {
            Want::ErrOr(out)
        } else {
            Want::Dir(out)
        }
    }
    fn check(&self, ch: &mut Ch, r: Result<ImageFileDirectory, String>) -> Result<(), String> {
        let soft: Vec<u16> = self.keys.iter().filter(|k| ![0, 34736, 34737].contains(&k.loc)).map(|k| k.id).collect();
        let (want, may) = match self.want() {
            Want::MustErr(why) => {
                ch.observe("error");
                ensure!(r.is_err(), "accepted although {why}");
                return Ok(());
            }
            Want::Dir(m) => (m, false),
            Want::ErrOr(m) => (m, true),
        };
        let d = match r {
            Err(_) if may => return Ok(()),
            Err(x) => return Err(format!("refused: {x}")),
            Ok(d) => d,
        };
        let Some(g) = d.geo_key_directory() else {
            return Err("the GeoKey directory is lost".into());
        };
        for (id, name, _, get) in KEYS {
            let got = get(g);
            if soft.contains(id) {
                // not supported, hence missing; if it is there, then with the value pointed at
                let at = self.keys.iter().find(|k| k.id == *id).expect("key");
                let there = match at.loc {
                    34735 => self.data().get(at.off as usize).map(|x| Val::N(*x)),
                    256 => Some(Val::N(d.image_width() as u16)),
                    _ => None,
                };
                ensure!(got.is_none() || got == there, "{name} ({id}) is {got:?}, its value lies in tag {}: {there:?}", at.loc);
                continue;
            }
            ensure!(got == want.get(id).cloned(), "{name} ({id}) is {got:?}, the directory holds {:?}", want.get(id));
            ch.observe(format!("{got:?}"));
        }
        let crs = g.projected_type.or(g.geographic_type);
        ensure!(g.epsg_code() == crs, "the CRS code is {:?} instead of {crs:?}", g.epsg_code());
        Ok(())
    }
    fn by_file(&self, ch: &mut Ch, f: usize) -> Result<(), String> {
        let fmt = FMTS[f];
        let b = FileSpec::new(fmt, vec![IfdSpec { entries: self.entries(), ..Default::default() }]).build();
        ch.note(|| format!("{fmt:?} keys {:?} tail {:?} text {:?} doubles {:?}", self.keys, self.tail, self.text, self.nums));
        ch.step((f, self.data(), &self.text));
        let r = open(&Mem::new(b.bytes).eof(Eof::Error)).map_err(|x| x.to_string());
        self.check(ch, r.map(|t| t.ifds()[0].clone()))
    }
}

const TEXT: &str = "UTM zone 10|WGS 84|a||b|last";
const NUMS: [f64; 6] = [0.5, -0.0, 6378137.0, f64::NAN, 298.257223563, f64::INFINITY];

/// A directory entry for the key with a value of its own kind; the k-th such value.
fn good(id: u16, kind: char, k: u16) -> Key {
    match kind {
        'n' => Key { id, loc: 0, count: 1, off: id ^ k },
        'f' => Key { id, loc: 34736, count: 1, off: (id + k) % 6 },
        _ => {
            let w = [(0u16, 12u16), (12, 7), (0, 11), (19, 2), (21, 1), (24, 4), (12, 0), (0, 28)];
            let (off, count) = w[(id + k) as usize % w.len()];
            Key { id, loc: 34737, count, off }
        }
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every key number with every inline value", move |ch| {
            let f = ch.choose(4);
            let id = ch.pick(&[1024u16, 1025, 2048, 2050, 2056, 3072, 3074, 3076, 4096, 4099]);
            let hi = ch.choose(256) as u16;
            for lo in 0..256u16 {
                let g = Geo::new(vec![Key { id, loc: 0, count: 1, off: hi << 8 | lo }]);
                g.by_file(ch, f)?;
            }
            Ok(())
        }),
        body("every 16-bit key number", move |ch| {
            let id = ch.choose(1 << 16) as u16;
            let how = ch.choose(3);
            let k = match how {
                0 => Key { id, loc: 0, count: 1, off: 4711 },
                1 => Key { id, loc: 34736, count: 1, off: 2 },
                _ => Key { id, loc: 34737, count: 7, off: 12 },
            };
            // a known key before and after it
            let mut g = Geo::new(vec![Key { id: 2048, loc: 0, count: 1, off: 4326 }, k, Key { id: 1025, loc: 0, count: 1, off: 2 }]);
            if id == 2048 || id == 1025 {
                g.keys = vec![k];
            }
            g.text = Some(TEXT.into());
            g.nums = Some(NUMS.to_vec());
            g.by_file(ch, (id % 4) as usize)
        }),
        body("each key with every location, offset and count", move |ch| {
            let (id, ..) = KEYS[ch.choose(KEYS.len())];
            let loc = ch.pick(&[0u16, 34736, 34737]);
            let off = ch.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 11, 12, 18, 19, 20, 21, 22, 23, 24, 27, 28, 29, 40, 65535]);
            let count = ch.pick(&[0u16, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 28, 29, 65535]);
            let have = ch.choose(4);
            let mut g = Geo::new(vec![Key { id, loc, count, off }]);
            g.text = (have & 1 == 0).then(|| TEXT.into());
            g.nums = (have & 2 == 0).then(|| NUMS.to_vec());
            g.by_file(ch, (off % 4) as usize)
        }),
        body("every ordered pair of keys", move |ch| {
            let i = ch.choose(KEYS.len());
            let j = ch.choose(KEYS.len());
            let k = ch.choose(t.sel(4, 12)) as u16;
            if i == j {
                return Ok(());
            }
            let mut g = Geo::new(vec![good(KEYS[i].0, KEYS[i].2, k), good(KEYS[j].0, KEYS[j].2, k)]);
            g.text = Some(TEXT.into());
            g.nums = Some(NUMS.to_vec());
            g.by_file(ch, (k % 4) as usize)
        }),
        body("all keys, all but any two, sorted and not", move |ch| {
            let a = ch.choose(KEYS.len() + 1);
            let b = if a == 0 { 0 } else { ch.choose(a) };
            let k = ch.choose(t.sel(4, 16)) as u16;
            let how = ch.choose(3);
            let mut keys: Vec<Key> = KEYS
                .iter()
                .enumerate()
                .filter(|(i, _)| i + 1 != a && i + 1 != b)
                .map(|(_, x)| good(x.0, x.2, k))
                .collect();
            match how {
                1 => keys.reverse(),
                2 => keys.rotate_left(17),
                _ => {}
            }
            let mut g = Geo::new(keys);
            g.text = Some(TEXT.into());
            g.nums = Some(NUMS.to_vec());
            g.by_file(ch, (k % 4) as usize)
        }),
        body("text over a small alphabet, every substring", move |ch| {
            let n = ch.choose(t.sel(5, 7));
            let s: String = (0..n).map(|_| ch.pick(&['a', '|', 'é'])).collect();
            for off in 0..=s.len() as u16 + 1 {
                for count in 0..=s.len() as u16 + 2 {
                    let mut g = Geo::new(vec![Key { id: 1026, loc: 34737, count, off }, Key { id: 3073, loc: 34737, count: s.len() as u16, off: 0 }]);
                    g.text = Some(s.clone());
                    g.by_file(ch, n % 4)?;
                }
            }
            Ok(())
        }),
        body("doubles: every element of lists of every length", move |ch| {
            let n = ch.choose(t.sel(8, 20));
            let off = ch.choose(n + 2) as u16;
            let id = ch.pick(&[2053u16, 2055, 2057, 2061, 3077, 3080, 3095]);
            let bits = ch.pick(&[0u64, 1 << 63, 0x7ff8_dead_beef_0001, 0x7ff0_0000_0000_0000, 0xfff8_0000_0000_0000, 1, 0x3ff0_0000_0000_0001]);
            let mut v: Vec<f64> = (0..n).map(|i| i as f64 * 1.5 - 3.0).collect();
            if let Some(x) = v.get_mut(off as usize) {
                *x = f64::from_bits(bits);
            }
            let mut g = Geo::new(vec![Key { id, loc: 34736, count: 1, off }]);
            g.nums = Some(v);
            g.by_file(ch, n % 4)
        }),
        body("large directories", move |ch| {
            // unknown keys before, between and after the known ones
            let n = ch.pick(&[100usize, 210, 211, 212, 255, 256, 257, 300, 511, 512, 1000, 16383, 16384, 65000]);
            let at = ch.choose(3);
            let k = ch.choose(4) as u16;
            let mut keys: Vec<Key> = (0..n).map(|i| Key { id: 5000 + (i % 60_000) as u16, loc: 0, count: 1, off: i as u16 }).collect();
            let i = [0, n / 2, n][at];
            keys.splice(i..i, KEYS.iter().map(|x| good(x.0, x.2, k)));
            let mut g = Geo::new(keys);
            g.text = Some(TEXT.into());
            g.nums = Some(NUMS.to_vec());
            g.by_file(ch, k as usize).map_err(|e| e.chars().take(400).collect())
        }),
        body("long texts and lists of doubles", move |ch| {
            let n = ch.pick(&[255usize, 256, 257, 300, 4096, 32767, 32768, 32769, 65535, 65536, 70_000]);
            let pos: Vec<usize> = [0, 1, 127, 128, 254, 255, 256, 257, 4095, 32766, 32767, 32768, 40_000, 65533, 65534, 65535].into_iter().filter(|x| *x <= n).collect();
            let i = ch.pick(&pos);
            let len = ch.pick(&[0usize, 1, 2, 128, 255, 256, 257, 1000, 32767, 32768, 65535]);
            let text: String = (0..n).map(|i| (b'A' + (crate::tiffw::mix(i as u64) % 50) as u8) as char).collect();
            let nums: Vec<f64> = (0..n).map(|i| i as f64 + 0.25).collect();
            let mut g = Geo::new(vec![
                Key { id: 1026, loc: 34737, count: len as u16, off: i as u16 },
                Key { id: 2057, loc: 34736, count: 1, off: i.min(n - 1) as u16 },
                Key { id: 3073, loc: 34737, count: 3, off: 2 },
            ]);
            g.text = Some(text);
            g.nums = Some(nums);
            g.by_file(ch, i % 4).map_err(|e| e.chars().take(400).collect())
        }),
        body("order of processing of the three tags", move |ch| {
            let perm = [[34735u16, 34736, 34737], [34735, 34737, 34736], [34736, 34735, 34737], [34736, 34737, 34735], [34737, 34735, 34736], [34737, 34736, 34735]][ch.choose(6)];
            let have = ch.choose(4);
            let k = ch.choose(t.sel(6, 20)) as u16;
            let mut g = Geo::new(KEYS.iter().filter(|x| x.2 == 'n' || (have & 1 == 0 && x.2 == 's') || (have & 2 == 0 && x.2 == 'f')).map(|x| good(x.0, x.2, k)).collect());
            g.text = (have & 1 == 0).then(|| TEXT.into());
            g.nums = (have & 2 == 0).then(|| NUMS.to_vec());
            let m: BTreeMap<_, _> = g.entries().iter().map(|x| (x.tag, x.val.expect())).collect();
            let order: Vec<u16> = perm.iter().copied().filter(|x| m.contains_key(x)).collect();
            ch.note(|| format!("from_tags, order {order:?}"));
            ch.step((&order, k));
            let r = ImageFileDirectory::from_tags(ordered(&m, &order), Endianness::LittleEndian).map_err(|x| x.to_string());
            g.check(ch, r)
        }),
        body("CRS codes", move |ch| {
            let a = ch.pick(&[None, Some(0u16), Some(1), Some(4326), Some(32767), Some(65535)]);
            let b = ch.pick(&[None, Some(0u16), Some(1), Some(32610), Some(32767), Some(65535)]);
            let rev = ch.flag();
            let other = ch.flag();
            let mut keys = vec![];
            keys.extend(a.map(|off| Key { id: 2048, loc: 0, count: 1, off }));
            keys.extend(b.map(|off| Key { id: 3072, loc: 0, count: 1, off }));
            if other {
                keys.push(Key { id: 4096, loc: 0, count: 1, off: 5773 });
                keys.push(Key { id: 1024, loc: 0, count: 1, off: 1 });
            }
            if rev {
                keys.reverse();
            }
            Geo::new(keys).by_file(ch, 0)
        }),
        body("values elsewhere and trailing shorts do not disturb other keys", move |ch| {
            let (id, ..) = KEYS[ch.choose(KEYS.len())];
            let loc = ch.pick(&[34735u16, 1, 256, 65535, 34734, 34738]);
            let count = ch.pick(&[0u16, 1, 2, 100]);
            let off = ch.pick(&[0u16, 1, 12, 65535]);
            let tail = ch.choose(4);
            let mut g = Geo::new(
                KEYS.iter()
                    .filter(|x| x.0 != id && x.0 % 5 == 0)
                    .map(|x| good(x.0, x.2, 3))
                    .collect(),
            );
            let at = ch.choose(3) * g.keys.len() / 2;
            g.keys.insert(at, Key { id, loc, count, off });
            g.tail = vec![7; tail];
            g.text = Some(TEXT.into());
            g.nums = Some(NUMS.to_vec());
            g.by_file(ch, tail)
        }),
        body("malformed directories are errors", move |ch| {
            let f = ch.choose(4);
            let fmt = FMTS[f];
            let n = ch.choose(14);
            let claimed = ch.pick(&[0u16, 1, 2, 3, 4, 100, 65535]);
            let head = ch.pick(&[[1u16, 1, 0], [1, 1, 1], [1, 1, 9], [0, 1, 0], [2, 1, 0], [1, 0, 0], [1, 2, 0]]);
            let full = [head[0], head[1], head[2], claimed, 1024, 0, 1, 1, 2048, 0, 1, 4326, 3072, 0];
            let mut es = base();
            es.push(e(34735, V::Short(full[..n].to_vec())));
            let b = FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]).build();
            ch.note(|| format!("{fmt:?} {:?}", &full[..n]));
            ch.step((f, n, claimed, head));
            let r = open(&Mem::new(b.bytes).eof(Eof::Error));
            let enough = n >= 4 && n >= 4 + 4 * claimed as usize;
            let known = head[0] == 1 && head[1] == 1;
            match r {
                Err(x) => ensure!(!(enough && known), "a well-formed GeoKey directory is refused: {x}"),
                Ok(t) => {
                    let d = &t.ifds()[0];
                    ensure!(enough, "a truncated GeoKey directory is accepted: {:?}", d.geo_key_directory());
                    if known {
                        let g = d.geo_key_directory().ok_or("lost")?;
                        ensure!(g.model_type == (claimed >= 1).then_some(1) && g.geographic_type == (claimed >= 2).then_some(4326), "{g:?}");
                    }
                }
            }
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            "all 65536 key numbers x 3 locations; all 65536 inline values of 10 keys; every key x 3 locations x 22 offsets x 15 counts; every ordered pair of keys; all keys but any two; every substring of texts over {a, |, é}; directories with up to 65000 unknown keys; texts and lists of up to 70000 elements with offsets and counts around powers of two; all 6 orders of processing",
            &["no key occurs twice", "keys whose values lie in other tags are not judged, only their effect on others"],
        ),
    )
}
