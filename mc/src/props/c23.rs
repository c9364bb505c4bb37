//! C23: the Python extension, compiled from its sources against stand-ins for pyo3 and its
//! companions (see py/), called by name as Python does and compared with the Rust library on the
//! same files.
use std::ops::Range;
use std::process::Command;
use std::sync::{Arc, Mutex, OnceLock};

use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::{CompressedBytes, ImageFileDirectory, TagValue, TileByteRange, TIFF};
use bytes::Bytes;
use futures::FutureExt;
use object_store::memory::InMemory;
use object_store::{ObjectStore, ObjectStoreExt, PutPayload};
use pyo3::rt::Args;
use pyo3::{ffi, Bound, Kind, Native, Obj, PyErr, PyResult};

use super::{about, base, bits_of, c10, c11, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::exec::{block_on, sched, Answer, GateEnv, Limits, Task};
use crate::sources::{Eof, Mem, Req};
use crate::tiffw::{e, Built, Comp, Entry, FileSpec, Fmt, IfdSpec, Img, Layout, Tab, FMTS, LAYOUTS, V};
use crate::Tier;

const SCRIPT: &str = r#"
import enum, runpy, sys
for n, c in runpy.run_path(sys.argv[1]).items():
    if isinstance(c, type) and issubclass(c, enum.IntEnum) and c is not enum.IntEnum:
        print(n, *[f"{k}={int(v)}" for k, v in c.__members__.items()])
"#;

fn enums() -> Result<Obj, String> {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut c = Command::new("python3");
    c.args(["-I", "-B", "-c", SCRIPT]).arg(format!("{repo}/python/python/async_tiff/enums.py"));
    let o = c.output().map_err(|e| format!("python3: {e}"))?;
    ensure!(o.status.success(), "async_tiff.enums cannot be used: {}", String::from_utf8_lossy(&o.stderr));
    let m = Obj::module("async_tiff.enums");
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let mut w = l.split(' ');
        let name = w.next().unwrap_or("").to_string();
        let members = w.filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), v.parse::<i128>().unwrap())).collect();
        if let Kind::Module { attrs, .. } = m.kind() {
            attrs.lock().unwrap().push((name.clone(), Obj::new(Kind::EnumClass { name, members })));
        }
    }
    Ok(m)
}

/// The extension module.
fn module() -> Result<&'static Obj, String> {
    static M: OnceLock<Result<Obj, String>> = OnceLock::new();
    M.get_or_init(|| {
        pyo3::set_module("async_tiff.enums", enums()?);
        let m = Obj::module("_async_tiff");
        _async_tiff::module_init(&Bound::of(m.clone())).map_err(|e| format!("the module cannot be imported: {e}"))?;
        Ok(m)
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn class(name: &str) -> Result<Obj, String> {
    module()?.attr(name).map_err(|e| e.to_string())
}

fn member(class: &str, code: u16) -> Obj {
    let m = pyo3::rt::token().import("async_tiff.enums").unwrap();
    m.obj().attr(class).and_then(|c| c.call(Args::pos(vec![Obj::int(code)]))).unwrap_or_else(|_| Obj::int(code))
}

/// `await`
fn wait(o: PyResult<Obj>) -> PyResult<Obj> {
    block_on(o?.take_future()?)
}

/// A call of Python code, in which a panic is a failure of its own.
fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<crate::engine::Stop>() {
            std::panic::resume_unwind(p)
        }
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("{what} panics: {}", m.unwrap_or_default())
    })
}

fn show(o: &Obj) -> String {
    format!("{o:?}")
}
fn show_r(r: &PyResult<Obj>) -> String {
    match r {
        Ok(o) => show(o),
        Err(e) => format!("raises {e}"),
    }
}

// ---- sources -------------------------------------------------------------------------------

/// An object with the two methods of obspec.
struct Backend {
    data: Bytes,
    path: &'static str,
    env: Option<GateEnv>,
    log: Arc<Mutex<Vec<Vec<Range<u64>>>>>,
}

impl Backend {
    fn new(data: impl Into<Bytes>) -> Backend {
        Backend { data: data.into(), path: "a/b.tif", env: None, log: Default::default() }
    }
    fn read(&self, ranges: Vec<Range<u64>>, many: bool) -> Obj {
        self.log.lock().unwrap().push(ranges.clone());
        let data = self.data.clone();
        let gates: Option<Vec<_>> = self.env.as_ref().map(|e| vec![e.issue(ranges[0].clone())]);
        Obj::awaitable(Box::pin(async move {
            for g in gates.into_iter().flatten() {
                if g.await == Answer::Fail {
                    return Err(PyErr::of("StoreError", "injected"));
                }
            }
            let mut out = vec![];
            for r in ranges {
                let n = data.len() as u64;
                if r.start >= n || r.start > r.end {
                    return Err(PyErr::of("StoreError", format!("no bytes {r:?} of {n}")));
                }
                out.push(Obj::bytes(data.slice(r.start as usize..r.end.min(n) as usize)));
            }
            Ok(if many { Obj::list(out) } else { out.remove(0) })
        }))
    }
}

impl Native for Backend {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn hasattr(&self, name: &str) -> bool {
        matches!(name, "get_range_async" | "get_ranges_async")
    }
    fn call_method(&self, name: &str, a: Args) -> PyResult<Obj> {
        use pyo3::rt::extract;
        let bad = |m: String| Err(PyErr::of("TypeError", m));
        // (path, *, start, end=None, length=None), (path, *, starts, ends=None, lengths=None)
        let (start, end, length) = match name {
            "get_range_async" => ("start", "end", "length"),
            "get_ranges_async" => ("starts", "ends", "lengths"),
            _ => return bad(format!("no method {name}")),
        };
        a.check(1, &["path", start, end, length])?;
        match a.get(Some(0), "path") {
            Some(p) if extract::<&str>(&p)? == self.path => {}
            p => return Err(PyErr::of("StoreError", format!("no object at {p:?}"))),
        }
        let list = |o: Option<Obj>| -> PyResult<Option<Vec<u64>>> {
            match o {
                None => Ok(None),
                Some(o) if o.is_none() => Ok(None),
                Some(o) if name == "get_range_async" => Ok(Some(vec![extract(&o)?])),
                Some(o) => Ok(Some(extract(&o)?)),
            }
        };
        let Some(s) = list(a.get(None, start))? else { return bad(format!("{name} without {start}")) };
        let e = match (list(a.get(None, end))?, list(a.get(None, length))?) {
            (Some(e), None) => e,
            (None, Some(l)) if l.len() == s.len() => s.iter().zip(l).map(|(s, l)| s + l).collect(),
            _ => return bad(format!("{name} needs {end} or {length}")),
        };
        if s.len() != e.len() || s.is_empty() {
            return bad(format!("{name}: {} starts, {} ends", s.len(), e.len()));
        }
        Ok(self.read(s.into_iter().zip(e).map(|(s, e)| s..e).collect(), name == "get_ranges_async"))
    }
}

fn in_memory(data: &[u8]) -> Obj {
    let s = InMemory::new();
    let p = PutPayload::from(data.to_vec());
    block_on(s.put(&"a/b.tif".into(), p)).unwrap();
    pyo3_object_store::store_object(Arc::new(s) as Arc<dyn ObjectStore>)
}

fn open_py(store: Obj) -> PyResult<Obj> {
    let c = class("TIFF").map_err(|e| PyErr::of("ImportError", e))?;
    wait(c.call_method("open", Args::pos(vec![Obj::str("a/b.tif")]).kw("store", store)))
}

fn open_rust(data: &[u8]) -> Result<TIFF, String> {
    let m = Mem::new(data.to_vec()).eof(Eof::Clamp);
    let c = ReadaheadMetadataCache::new(m).with_initial_size(32768).with_multiplier(2.0);
    block_on(async {
        let mut r = TiffMetadataReader::try_open(&c).await?;
        r.read(&c).await
    })
    .map_err(|e: async_tiff::error::AsyncTiffError| e.to_string())
}

// ---- metadata ------------------------------------------------------------------------------

const FIELDS: [&str; 41] = [
    "new_subfile_type", "image_width", "image_height", "bits_per_sample", "compression", "photometric_interpretation", "document_name",
    "image_description", "strip_offsets", "orientation", "samples_per_pixel", "rows_per_strip", "strip_byte_counts", "min_sample_value",
    "max_sample_value", "x_resolution", "y_resolution", "planar_configuration", "resolution_unit", "software", "date_time", "artist",
    "host_computer", "predictor", "tile_width", "tile_height", "tile_offsets", "tile_byte_counts", "extra_samples", "sample_format",
    "jpeg_tables", "copyright", "geo_key_directory", "model_pixel_scale", "model_tiepoint", "model_transformation", "gdal_nodata",
    "gdal_metadata", "other_tags", "lerc_parameters", "colormap",
];

fn value(v: &TagValue) -> Option<Obj> {
    let pair = |a: i128, b: i128| Obj::tuple(vec![Obj::int(a), Obj::int(b)]);
    Some(match v {
        TagValue::Byte(x) => Obj::int(*x),
        TagValue::Short(x) => Obj::int(*x),
        TagValue::SignedByte(x) => Obj::int(*x),
        TagValue::SignedShort(x) => Obj::int(*x),
        TagValue::Signed(x) => Obj::int(*x),
        TagValue::SignedBig(x) => Obj::int(*x),
        TagValue::Unsigned(x) => Obj::int(*x),
        TagValue::UnsignedBig(x) => Obj::int(*x),
        TagValue::Float(x) => Obj::float(*x as f64),
        TagValue::Double(x) => Obj::float(*x),
        TagValue::List(l) => Obj::list(l.iter().map(value).collect::<Option<_>>()?),
        TagValue::Rational(a, b) => pair(*a as i128, *b as i128),
        TagValue::RationalBig(a, b) => pair(*a as i128, *b as i128),
        TagValue::SRational(a, b) => pair(*a as i128, *b as i128),
        TagValue::SRationalBig(a, b) => pair(*a as i128, *b as i128),
        TagValue::Ascii(s) => Obj::str(s),
        _ => return None,
    })
}

fn nums<T: Copy + Into<i128>>(v: &[T]) -> Obj {
    Obj::list(v.iter().map(|x| Obj::int(*x)).collect())
}
fn floats(v: &[f64]) -> Obj {
    Obj::list(v.iter().map(|x| Obj::float(*x)).collect())
}

/// The field as Python shows it; `None`: no value of Python stands for it.
fn want(d: &ImageFileDirectory, f: &str) -> Option<Obj> {
    fn opt<T>(v: Option<T>, f: impl FnOnce(T) -> Obj) -> Obj {
        v.map(f).unwrap_or_else(Obj::none)
    }
    let text = |v: Option<&str>| opt(v, Obj::str);
    Some(match f {
        "new_subfile_type" => opt(d.new_subfile_type(), Obj::int),
        "image_width" => Obj::int(d.image_width()),
        "image_height" => Obj::int(d.image_height()),
        "bits_per_sample" => nums(d.bits_per_sample()),
        "compression" => member("Compression", d.compression().to_u16()),
        "photometric_interpretation" => member("PhotometricInterpretation", d.photometric_interpretation().to_u16()),
        "document_name" => text(d.document_name()),
        "image_description" => text(d.image_description()),
        "strip_offsets" => opt(d.strip_offsets(), nums),
        "orientation" => opt(d.orientation(), Obj::int),
        "samples_per_pixel" => Obj::int(d.samples_per_pixel()),
        "rows_per_strip" => opt(d.rows_per_strip(), Obj::int),
        "strip_byte_counts" => opt(d.strip_byte_counts(), nums),
        "min_sample_value" => opt(d.min_sample_value(), nums),
        "max_sample_value" => opt(d.max_sample_value(), nums),
        "x_resolution" => opt(d.x_resolution(), Obj::float),
        "y_resolution" => opt(d.y_resolution(), Obj::float),
        "planar_configuration" => member("PlanarConfiguration", d.planar_configuration().to_u16()),
        "resolution_unit" => opt(d.resolution_unit(), |x| member("ResolutionUnit", x.to_u16())),
        "software" => text(d.software()),
        "date_time" => text(d.date_time()),
        "artist" => text(d.artist()),
        "host_computer" => text(d.host_computer()),
        "predictor" => opt(d.predictor(), |x| member("Predictor", x.to_u16())),
        "tile_width" => opt(d.tile_width(), Obj::int),
        "tile_height" => opt(d.tile_height(), Obj::int),
        "tile_offsets" => opt(d.tile_offsets(), nums),
        "tile_byte_counts" => opt(d.tile_byte_counts(), nums),
        "extra_samples" => opt(d.extra_samples(), |v| Obj::list(v.iter().map(|x| member("ExtraSamples", x.to_u16())).collect())),
        "sample_format" => Obj::list(d.sample_format().iter().map(|x| member("SampleFormat", x.to_u16())).collect()),
        "jpeg_tables" => opt(d.jpeg_tables(), |b| Obj::bytes(b.to_vec())),
        "copyright" => text(d.copyright()),
        "model_pixel_scale" => opt(d.model_pixel_scale(), floats),
        "model_tiepoint" => opt(d.model_tiepoint(), floats),
        "model_transformation" => opt(d.model_transformation(), floats),
        "gdal_nodata" => text(d.gdal_nodata()),
        "gdal_metadata" => text(d.gdal_metadata()),
        "other_tags" => Obj::dict(d.other_tags().iter().map(|(k, v)| Some((Obj::int(k.to_u16()), value(v)?))).collect::<Option<_>>()?),
        "lerc_parameters" => opt(d.lerc_parameters(), nums),
        _ => unreachable!("{f}"),
    })
}

fn item(o: &Obj, key: &str) -> PyResult<Obj> {
    o.call_method("__getitem__", Args::pos(vec![Obj::str(key)]))
}

fn strings(o: &Obj) -> Result<Vec<String>, String> {
    match o.kind() {
        Kind::List(v) | Kind::Iter(v) | Kind::Tuple(v) => v.iter().map(|s| pyo3::rt::extract::<String>(s).map_err(|e| e.to_string())).collect(),
        _ => Err(format!("{o:?} is no list of names")),
    }
}

/// `keys()`, iteration, and an error for other names.
fn check_keys(o: &Obj, mut want: Vec<String>) -> Result<(), String> {
    let k = o.call_method("keys", Args::default()).map_err(|e| format!("keys(): {e}"))?;
    let mut got = strings(&k)?;
    let it = o.call_method("__iter__", Args::default()).map_err(|e| format!("iter(): {e}"))?;
    ensure!(strings(&it)? == got, "iteration yields {it:?}, keys() {k:?}");
    got.sort();
    want.sort();
    ensure!(got == want, "keys() has {got:?} instead of {want:?}");
    match item(o, "no_such_field") {
        Err(e) if e.class() == "KeyError" => Ok(()),
        r => Err(format!("[\"no_such_field\"] gives {}", show_r(&r))),
    }
}

fn check_geo(g: &Obj, d: &async_tiff::geo::GeoKeyDirectory) -> Result<(), String> {
    let mut keys = vec![];
    for (_, name, _, get) in c11::KEYS {
        let w = match get(d) {
            None => Obj::none(),
            Some(c11::Val::N(n)) => Obj::int(n),
            Some(c11::Val::S(s)) => Obj::str(&s),
            Some(c11::Val::F(f)) => Obj::float(f64::from_bits(f)),
        };
        if !w.is_none() {
            keys.push(name.to_string());
        }
        for (how, r) in [("attribute", g.attr(name)), ("item", item(g, name))] {
            ensure!(matches!(&r, Ok(o) if show(o) == show(&w)), "geo key {how} {name} is {} instead of {w:?}", show_r(&r));
        }
    }
    check_keys(g, keys)
}

/// The elements of a view, in row-major order of its shape.
struct Seen {
    shape: Vec<isize>,
    format: Option<String>,
    items: Vec<u64>,
}

/// Read an object through its buffer, after the object itself has been let go.
fn view(o: Obj, expect: usize) -> Result<Seen, String> {
    let err = |e: PyErr| format!("the buffer cannot be had: {e}");
    let plain = o.buffer(ffi::PyBUF_STRIDES).map_err(err)?;
    ensure!(plain.view.format.is_null(), "a format that was not asked for");
    drop(plain);
    let before = o.refs();
    let b = o.buffer(ffi::PyBUF_FULL_RO).map_err(err)?;
    let v = &b.view;
    ensure!(v.obj as *const Kind == o.kind() as *const Kind, "the view does not hold its object");
    ensure!(o.refs() == before + 1, "the view counts its object {} times", o.refs() - before);
    let w = o.weak();
    drop(o);
    ensure!(before > 1 || w.alive(), "the view does not keep its object");
    ensure!(v.readonly == 1, "the view is writable");
    ensure!((1..=3).contains(&v.ndim) && !v.shape.is_null() && !v.strides.is_null() && v.suboffsets.is_null(), "ndim {}", v.ndim);
    // SAFETY: they have ndim elements each
    let (shape, strides) = unsafe {
        let n = v.ndim as usize;
        (std::slice::from_raw_parts(v.shape, n).to_vec(), std::slice::from_raw_parts(v.strides, n).to_vec())
    };
    ensure!(shape.iter().all(|x| *x >= 0), "shape {shape:?}");
    let n = shape.iter().map(|x| *x as usize).product::<usize>();
    let size = v.itemsize as usize;
    ensure!([1, 2, 4, 8].contains(&size), "itemsize {size}");
    ensure!(v.len as usize == n * size, "the view has {} bytes: shape {shape:?}, itemsize {size}", v.len);
    ensure!(n == expect, "{n} elements instead of {expect}: shape {shape:?}");
    let mut items = vec![];
    for i in 0..n {
        let mut rest = i;
        let mut at = 0isize;
        for k in (0..shape.len()).rev() {
            at += (rest % shape[k] as usize) as isize * strides[k];
            rest /= shape[k] as usize;
        }
        ensure!(at >= 0 && at as usize + size <= v.len as usize, "element {i} at byte {at} of {}: strides {strides:?}", v.len);
        // SAFETY: within the bytes of the view
        let p = unsafe { (v.buf as *const u8).offset(at) };
        items.push(unsafe {
            match size {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                _ => (p as *const u64).read_unaligned(),
            }
        });
    }
    // SAFETY: a string if there is one
    let format = (!v.format.is_null()).then(|| unsafe { std::ffi::CStr::from_ptr(v.format) }.to_string_lossy().into_owned());
    drop(b);
    ensure!(before > 1 || !w.alive(), "the object outlives its last view");
    Ok(Seen { shape, format, items })
}

fn check_colormap(o: Obj, c: &[u16]) -> Result<(), String> {
    let n = c.len() / 3;
    let len = o.call_method("__len__", Args::default()).map_err(|e| e.to_string())?;
    ensure!(show(&len) == n.to_string(), "len(colormap) is {len:?} of {n} colors");
    if c.len() % 3 != 0 {
        return Ok(());
    }
    let s = view(o, c.len()).map_err(|e| format!("colormap: {e}"))?;
    let w: Vec<u64> = (0..n).flat_map(|i| [c[i], c[n + i], c[2 * n + i]]).map(|x| x as u64).collect();
    ensure!(s.shape == [n as isize, 3] && s.format.as_deref() == Some("H"), "colormap: shape {:?}, format {:?}", s.shape, s.format);
    ensure!(s.items == w, "colormap: {:?} instead of {w:?}", s.items);
    Ok(())
}

fn check_ifd(o: &Obj, d: &ImageFileDirectory) -> Result<(), String> {
    let mut keys = vec![];
    for f in FIELDS {
        for (how, r) in [("attribute", guarded(f, || o.attr(f))?), ("item", guarded(f, || item(o, f))?)] {
            let fail = |w: &str| Err(format!("{how} {f} is {} instead of {w}", show_r(&r)));
            let there = match f {
                "geo_key_directory" | "colormap" => {
                    let there = if f == "colormap" { d.colormap().is_some() } else { d.geo_key_directory().is_some() };
                    let Ok(g) = r else { return fail("a value") };
                    ensure!(g.is_none() != there, "{how} {f} is {g:?}");
                    if let (true, Some(c)) = (f == "colormap", d.colormap()) {
                        check_colormap(g, c)?;
                    } else if let Some(x) = d.geo_key_directory().filter(|_| f != "colormap") {
                        check_geo(&g, x)?;
                    }
                    there
                }
                _ => match want(d, f) {
                    Some(w) => {
                        if !matches!(&r, Ok(g) if show(g) == show(&w)) {
                            return fail(&show(&w));
                        }
                        !w.is_none()
                    }
                    None => {
                        if r.is_ok() {
                            return fail("an error");
                        }
                        true
                    }
                },
            };
            if there && how == "item" {
                keys.push(f.to_string());
            }
        }
    }
    check_keys(o, keys)?;
    let n = guarded("tile_count", || o.attr("tile_count"))?;
    let w = d.tile_count().map(|(x, y)| Obj::tuple(vec![Obj::int(x as u64), Obj::int(y as u64)])).unwrap_or_else(Obj::none);
    ensure!(matches!(&n, Ok(n) if show(n) == show(&w)), "tile_count is {} instead of {w:?}", show_r(&n));
    Ok(())
}

/// Open from Python and from Rust, through an obspec backend or a store, and compare.
fn check_file(ch: &mut Ch, data: &[u8], store: bool) -> Result<Option<(Obj, TIFF)>, String> {
    let s = if store { in_memory(data) } else { Obj::native(Backend::new(data.to_vec())) };
    let py = guarded("open", || open_py(s))?;
    let rust = open_rust(data);
    let (t, r) = match (py, rust) {
        (Ok(t), Ok(r)) => (t, r),
        (Err(e), Err(r)) => {
            ensure!(e.class() == "AsyncTiffException", "open raises {e} where the library reports {r}");
            // what the source says differs
            ensure!(store || e.message() == r || e.message().contains("StoreError"), "open raises {e} where the library reports {r}");
            ch.observe("error");
            return Ok(None);
        }
        (Ok(_), Err(r)) => return Err(format!("open succeeds where the library reports {r}")),
        (Err(e), Ok(_)) => return Err(format!("open raises {e} where the library opens the file")),
    };
    let order = t.attr("endianness").map_err(|e| e.to_string())?;
    ensure!(show(&order) == show(&member("Endianness", (r.endianness() == async_tiff::reader::Endianness::BigEndian) as u16)), "endianness is {order:?}");
    let ifds = t.attr("ifds").map_err(|e| e.to_string())?;
    let Kind::List(l) = ifds.kind() else { return Err(format!("ifds is {ifds:?}")) };
    ensure!(l.len() == r.ifds().len(), "{} directories instead of {}", l.len(), r.ifds().len());
    for (k, d) in r.ifds().iter().enumerate() {
        check_ifd(&l[k], d).map_err(|e| format!("directory {k}: {e}"))?;
        let one = t.call_method("ifd", Args::pos(vec![Obj::int(k as u64)])).map_err(|e| format!("ifd({k}): {e}"))?;
        for (j, f) in r.ifds().iter().enumerate() {
            ensure!(one.same(&l[j]) == (f == d), "ifd({k}) == ifds[{j}] is {}", one.same(&l[j]));
        }
    }
    for k in [r.ifds().len(), r.ifds().len() + 1, 1 << 40] {
        match t.call_method("ifd", Args::pos(vec![Obj::int(k as u64)])) {
            Err(e) if e.class() == "IndexError" => {}
            x => return Err(format!("ifd({k}) of {} directories: {}", l.len(), show_r(&x))),
        }
    }
    let offs = r.ifds().iter().flat_map(|d| d.tile_offsets().into_iter().chain(d.strip_offsets()).flatten().copied());
    let w = offs.filter(|o| *o != 0).min();
    let h = guarded("header_byte_size", || t.attr("header_byte_size"))?;
    match (&h, w) {
        (Ok(h), Some(w)) => ensure!(show(h) == w.to_string(), "header_byte_size is {h:?} instead of {w}"),
        (Err(_), None) => {}
        _ => return Err(format!("header_byte_size is {} where the least offset is {w:?}", show_r(&h))),
    }
    ch.observe((r.ifds().len(), w.is_some()));
    Ok(Some((t, r)))
}

fn replaced(mut es: Vec<Entry>, tag: u16, v: V) -> Vec<Entry> {
    es.retain(|x| x.tag != tag);
    es.push(e(tag, v));
    es.sort_by_key(|x| x.tag);
    es
}

fn one(fmt: Fmt, es: Vec<Entry>) -> Vec<u8> {
    FileSpec::new(fmt, vec![IfdSpec { entries: es, ..Default::default() }]).build().bytes
}

// ---- tiles ---------------------------------------------------------------------------------

const KINDS: &[(u16, u16, &str, &str)] = &[
    (1, 1, "bool", "B"),
    (1, 8, "u8", "B"),
    (1, 16, "u16", "H"),
    (1, 32, "u32", "I"),
    (1, 64, "u64", "Q"),
    (2, 8, "i8", "b"),
    (2, 16, "i16", "h"),
    (2, 32, "i32", "i"),
    (2, 64, "i64", "q"),
    (3, 32, "f32", "f"),
    (3, 64, "f64", "d"),
];

fn check_array(o: PyResult<Obj>, a: &Result<async_tiff::Array, String>) -> Result<(), String> {
    match (o, a) {
        (Err(e), Err(m)) => {
            ensure!(e.message().contains(m.as_str()), "decoding raises {e} where the library reports {m}");
            Ok(())
        }
        // there is no array of elements without a type
        (Err(_), Ok(a)) if a.data_type().is_none() => Ok(()),
        (Ok(o), Ok(a)) => {
            let (ty, items) = bits_of(a.data());
            let shape = o.attr("shape").map_err(|e| e.to_string())?;
            let w = a.shape();
            let want = Obj::tuple(w.iter().map(|x| Obj::int(*x as u64)).collect());
            ensure!(show(&shape) == show(&want), "shape {shape:?} instead of {want:?}");
            let s = view(o, items.len())?;
            ensure!(s.shape == [w[0] as isize, w[1] as isize, w[2] as isize], "the view has shape {:?} instead of {w:?}", s.shape);
            let f = KINDS.iter().find(|k| k.2 == ty).map(|k| k.3).unwrap_or("?");
            ensure!(s.format.as_deref() == Some(f) || f == "B" && s.format.as_deref() == Some("?"), "format {:?} of {ty} elements", s.format);
            ensure!(s.items == items, "elements {:x?} instead of {items:x?}", s.items);
            Ok(())
        }
        (Ok(o), Err(m)) => Err(format!("decoding gives {o:?} where the library reports {m}")),
        (Err(e), Ok(_)) => Err(format!("decoding raises {e}")),
    }
}

/// The ways to decode a tile.
fn decode(tile: &Obj, how: usize, registry: Option<&Obj>) -> PyResult<Obj> {
    let mut a = Args::default();
    if let Some(r) = registry {
        a = a.kw("decoder_registry", r.clone());
    }
    match how {
        0 => tile.call_method("decode_sync", a),
        1 => wait(tile.call_method("decode", a)),
        2 => {
            let pool = class("ThreadPool").map_err(|e| PyErr::of("ImportError", e))?.call(Args::pos(vec![Obj::int(1u8)]))?;
            wait(tile.call_method("decode", a.kw("pool", pool)))
        }
        _ => {
            let a = if registry.is_none() { a.kw("decoder_registry", Obj::none()) } else { a };
            match how {
                3 => tile.call_method("decode_sync", a),
                _ => wait(tile.call_method("decode", a.kw("pool", Obj::none()))),
            }
        }
    }
}

/// A tile of Python is the tile of Rust, and can be decoded once.
fn check_tile(o: &Obj, t: async_tiff::Tile, how: usize, registry: Option<&Obj>, rust: &DecoderRegistry) -> Result<(), String> {
    let get = |n: &str| o.attr(n);
    for (n, w) in [("x", Obj::int(t.x() as u64)), ("y", Obj::int(t.y() as u64)), ("compression_method", member("Compression", t.compression_method().to_u16()))] {
        let g = get(n);
        ensure!(matches!(&g, Ok(g) if show(g) == show(&w)), "{n} is {} instead of {w:?}", show_r(&g));
    }
    let w = match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => Obj::bytes(b.clone()),
        CompressedBytes::Planar(v) => Obj::list(v.iter().map(|b| Obj::bytes(b.clone())).collect()),
    };
    let g = get("compressed_bytes");
    ensure!(matches!(&g, Ok(g) if show(g) == show(&w)), "compressed_bytes is {} instead of {w:?}", show_r(&g));
    let a = t.decode(rust).map_err(|e| e.to_string());
    check_array(guarded("decode", || decode(o, how, registry))?, &a)?;
    for n in ["x", "y", "compression_method", "compressed_bytes"] {
        let g = get(n);
        ensure!(matches!(&g, Err(e) if e.class() == "ValueError"), "{n} of a decoded tile is {}", show_r(&g));
    }
    for how in [0, 1] {
        let g = decode(o, how, registry);
        ensure!(matches!(&g, Err(e) if e.class() == "ValueError"), "decoding a tile again: {}", show_r(&g));
    }
    Ok(())
}

fn xy(x: usize, y: usize) -> Vec<Obj> {
    vec![Obj::int(x as u64), Obj::int(y as u64)]
}
fn pairs(v: &[(usize, usize)]) -> Obj {
    Obj::list(v.iter().map(|(x, y)| Obj::tuple(xy(*x, *y))).collect())
}

/// The calls that fetch tiles: of the file or of the directory, one or several.
fn fetch(t: &Obj, z: usize, v: &[(usize, usize)], of_ifd: bool, many: bool) -> PyResult<Obj> {
    let oz = Obj::int(z as u64);
    let d;
    let (o, mut a) = if of_ifd {
        d = t.call_method("ifd", Args::pos(vec![oz.clone()]))?;
        (&d, vec![])
    } else {
        (t, vec![oz])
    };
    if many {
        a.insert(0, pairs(v));
        o.call_method("fetch_tiles", Args::pos(a))
    } else {
        let mut p = xy(v[0].0, v[0].1);
        p.extend(a);
        o.call_method("fetch_tile", Args::pos(p))
    }
}

fn file(imgs: &[Img], layout: Layout) -> Built {
    FileSpec::new(imgs[0].fmt, imgs.iter().map(|i| i.ifd()).collect()).layout(layout).build()
}

fn image(fmt: Fmt, sf: u16, bits: u16, spp: u16, planar: bool, comp: Comp) -> Img {
    Img { fmt, w: 6, h: 5, tw: 4, th: 3, spp, planar, sf, bits, comp, pred: 0, seed: 7 }
}

/// A decoder of Python, which records what it is given.
struct Deco {
    calls: Arc<Mutex<Vec<(Obj, Bytes)>>>,
    out: Result<Vec<u8>, &'static str>,
}
impl Native for Deco {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn hasattr(&self, name: &str) -> bool {
        name == "__call__"
    }
    fn call(&self, a: Args) -> PyResult<Obj> {
        a.check(1, &["buffer"])?;
        let Some(b) = a.get(Some(0), "buffer") else { return Err(pyo3::rt::missing("buffer")) };
        let Kind::Bytes(x) = b.kind() else { return Err(PyErr::of("TypeError", "no buffer")) };
        self.calls.lock().unwrap().push((b.clone(), x.clone()));
        match &self.out {
            Ok(v) => Ok(Obj::bytes(v.clone())),
            Err(m) => Err(PyErr::of("ZeroDivisionError", m)),
        }
    }
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let tags: &'static [u16] = Box::leak(c10::all_tags().into_boxed_slice());
    let pal: &'static [V] = Box::leak(c10::palette().into_boxed_slice());
    let nf = t.sel(1, 4);
    let bodies = vec![
        body("every tag with values of every type", move |ch| {
            let fmt = FMTS[ch.choose(nf) * 3 % 4];
            let tag = ch.pick(tags);
            let v = ch.pick(pal);
            ch.step((tag, format!("{v:?}")));
            ch.note(|| format!("{fmt:?} tag {tag} {v:?}"));
            check_file(ch, &one(fmt, replaced(base(), tag, v)), false).map(|_| ())
        }),
        body("every pair of tags", move |ch| {
            let fmt = FMTS[ch.choose(nf) * 3 % 4];
            let i = ch.choose(tags.len());
            let j = i + ch.choose(tags.len() - i);
            let k = ch.choose(t.sel(2, 4)) as u64;
            ch.step((i, j, k));
            let es = replaced(replaced(base(), tags[i], c10::typical(tags[i], k)), tags[j], c10::typical(tags[j], k + 1));
            ch.note(|| format!("{fmt:?} {es:?}"));
            let store = ch.flag();
            check_file(ch, &one(fmt, es), store).map(|_| ())
        }),
        body("all tags and all but one", move |ch| {
            let fmt = ch.pick(&FMTS);
            let k = ch.choose(8) as u64;
            let out = ch.choose(tags.len() + 1);
            ch.step((out, k));
            let mut es = base();
            for (i, tag) in tags.iter().enumerate() {
                if i != out {
                    es = replaced(es, *tag, c10::typical(*tag, k));
                } else {
                    es.retain(|x| x.tag != *tag);
                }
            }
            ch.note(|| format!("{fmt:?} without {:?}", tags.get(out)));
            check_file(ch, &one(fmt, es), k % 2 == 1).map(|_| ())
        }),
        body("geo keys", move |ch| {
            let n = c11::KEYS.len();
            let mode = ch.choose(3);
            let i = ch.choose(n);
            let j = if mode == 0 { i + ch.choose(n - i) } else { i };
            let fmt = FMTS[(i + j) % 4];
            ch.step((mode, i, j));
            let on = |k: usize| match mode {
                0 => k == i || k == j,
                1 => k != i,
                _ => k >= i,
            };
            let (mut d, mut text, mut fl) = (vec![], String::new(), vec![]);
            let mut count = 0;
            for (k, (id, _, kind, _)) in c11::KEYS.iter().enumerate() {
                if !on(k) {
                    continue;
                }
                count += 1;
                match kind {
                    'n' => d.extend([*id, 0, 1, 1000 + k as u16]),
                    's' => {
                        let s = format!("text {k}|");
                        d.extend([*id, 34737, s.len() as u16, text.len() as u16]);
                        text.push_str(&s);
                    }
                    _ => {
                        d.extend([*id, 34736, 1, fl.len() as u16]);
                        fl.push(k as f64 / 7.0);
                    }
                }
            }
            let mut dir = vec![1u16, 1, 0, count];
            dir.extend(d);
            let mut es = replaced(base(), 34735, V::Short(dir));
            if !fl.is_empty() {
                es = replaced(es, 34736, V::double(&fl));
            }
            if !text.is_empty() {
                es = replaced(es, 34737, V::ascii(&text));
            }
            let r = check_file(ch, &one(fmt, es), false)?;
            let (t, _) = r.ok_or("the file cannot be opened")?;
            // equal to itself, through another object
            let g = |t: &Obj| t.call_method("ifd", Args::pos(vec![Obj::int(0u8)])).and_then(|d| d.attr("geo_key_directory")).map_err(|e| e.to_string());
            ensure!(g(&t)?.same(&g(&t)?), "a geo key directory differs from itself");
            Ok(())
        }),
        body("several directories", move |ch| {
            let fmt = ch.pick(&FMTS);
            let layout = ch.pick(&LAYOUTS);
            let n = 1 + ch.choose(3);
            let mut ifds = vec![];
            for k in 0..n {
                match ch.choose(4) {
                    0 => ifds.push(image(fmt, 1, 8, 1, false, Comp::None).ifd()),
                    1 => ifds.push(image(fmt, 1, 16, 3, true, Comp::Deflate).ifd()),
                    2 => {
                        let mut es = base();
                        es.push(e(278, V::Long(vec![2])));
                        ifds.push(IfdSpec { entries: es, blocks: vec![vec![1; 3 + k], vec![2; 9]], tables: Some((273, 279, Tab::Long, Tab::Long)) });
                    }
                    _ => ifds.push(IfdSpec { entries: replaced(base(), 270, V::ascii(&format!("image {k}"))), ..Default::default() }),
                }
            }
            ch.step(format!("{ifds:?}"));
            let b = FileSpec::new(fmt, ifds).layout(layout).build();
            let store = ch.flag();
            check_file(ch, &b.bytes, store).map(|_| ())
        }),
        body("zero offsets", move |ch| {
            let fmt = ch.pick(&FMTS);
            let mut o = vec![];
            for _ in 0..4 {
                o.push(ch.pick(&[0u32, 400, 70000]));
            }
            let strips = ch.flag();
            ch.step((&o, strips));
            let (a, b) = if strips { (273, 279) } else { (324, 325) };
            let mut es = replaced(replaced(base(), a, V::Long(o[..2].to_vec())), b, V::Long(vec![1, 1]));
            if !strips {
                es = replaced(replaced(es, 322, V::Long(vec![16])), 323, V::Long(vec![16]));
            }
            let second = replaced(replaced(base(), 273, V::Long(o[2..].to_vec())), 279, V::Long(vec![1, 1]));
            let d = |entries| IfdSpec { entries, ..Default::default() };
            let data = FileSpec::new(fmt, vec![d(es), d(second)]).build().bytes;
            check_file(ch, &data, false).map(|_| ())
        }),
        body("tiles of every element type, fetched and decoded in every way", move |ch| {
            let k = ch.choose(KINDS.len());
            let (sf, bits, _, _) = KINDS[k];
            let planar = ch.flag();
            let spp = ch.pick(&[1u16, 2, 3]);
            let comp = ch.pick(&[Comp::None, Comp::Deflate, Comp::Lzw, Comp::Zstd]);
            let fmt = FMTS[ch.choose(t.sel(2, 4)) * 3 % 4];
            let (of_ifd, many) = (ch.flag(), ch.flag());
            let how = ch.choose(5);
            let store = ch.flag();
            if bits == 1 && spp > 1 {
                return Ok(());
            }
            let i = image(fmt, sf, bits, spp, planar, comp);
            let small = Img { w: 4, h: 3, seed: 9, ..i };
            ch.step((k, planar, spp, comp, of_ifd, many, how, store));
            ch.note(|| format!("{i:?} of_ifd {of_ifd} many {many} how {how}"));
            let b = file(&[small, i], Layout::Cog);
            let s = if store { in_memory(&b.bytes) } else { Obj::native(Backend::new(b.bytes.clone())) };
            let py = open_py(s).map_err(|e| e.to_string())?;
            let rust = open_rust(&b.bytes)?;
            let m = Mem::new(b.bytes.clone()).eof(Eof::Error);
            let reg = DecoderRegistry::default();
            let v: &[(usize, usize)] = if many { &[(1, 1), (0, 0), (1, 0), (1, 1)] } else { &[(1, 1)] };
            for (z, v) in [(1, v), (0, &[(0, 0)][..])] {
                let got = guarded("fetch", || wait(fetch(&py, z, v, of_ifd, many)))?.map_err(|e| format!("fetching {v:?} raises {e}"))?;
                let list = match got.kind() {
                    Kind::List(l) if many => l.clone(),
                    _ => vec![got.clone()],
                };
                ensure!(list.len() == v.len(), "{} tiles instead of {}", list.len(), v.len());
                for (o, (x, y)) in list.iter().zip(v) {
                    let w = block_on(rust.ifds()[z].fetch_tile(*x, *y, &m)).map_err(|e| e.to_string())?;
                    ensure!(w.x() == *x && w.y() == *y, "the library gives tile {}, {}", w.x(), w.y());
                    check_tile(o, w, how, None, &reg).map_err(|e| format!("tile {x}, {y} of {z}: {e}"))?;
                }
            }
            Ok(())
        }),
        body("tiles that are not there, byte ranges", move |ch| {
            let fmt = ch.pick(&FMTS);
            let planar = ch.flag();
            let tiled = ch.flag();
            let i = image(fmt, 1, 8, 3, planar, Comp::None);
            let mut spec = i.ifd();
            if !tiled {
                spec = IfdSpec { entries: replaced(base(), 278, V::Long(vec![2])), blocks: vec![vec![1; 4], vec![2; 9]], tables: Some((273, 279, Tab::Long, Tab::Long)) };
            }
            let b = FileSpec::new(fmt, vec![spec]).build();
            let (x, y) = (ch.pick(&[0usize, 1, 2, 3, 100, usize::MAX]), ch.pick(&[0usize, 1, 2, 3, 100, usize::MAX]));
            let (of_ifd, many) = (ch.flag(), ch.flag());
            let z = if of_ifd { 0 } else { ch.choose(3) };
            ch.step((planar, tiled, x, y, of_ifd, many, z));
            ch.note(|| format!("{planar} {tiled} {x} {y} {z} {of_ifd} {many}"));
            let py = open_py(Obj::native(Backend::new(b.bytes.clone()))).map_err(|e| e.to_string())?;
            let rust = open_rust(&b.bytes)?;
            let m = Mem::new(b.bytes.clone()).eof(Eof::Error);
            let got = guarded("fetch", || fetch(&py, z, &[(x, y)], of_ifd, many))?;
            if z > 0 {
                ensure!(matches!(&got, Err(e) if e.class() == "IndexError"), "a tile of directory {z} of 1: {}", show_r(&got));
                return Ok(());
            }
            let got = guarded("fetch", || wait(got))?;
            let w = block_on(rust.ifds()[0].fetch_tile(x, y, &m)).map_err(|e| e.to_string());
            match (&got, &w) {
                (Ok(_), Ok(_)) => {}
                (Err(e), Err(m)) => {
                    ensure!(e.message().contains(m.as_str()), "fetching {x}, {y} raises {e} where the library reports {m}");
                    ensure!(tiled || e.class() == "TypeError", "a tile of a stripped image: {e}");
                }
                _ => return Err(format!("fetching {x}, {y}: {} where the library reports {:?}", show_r(&got), w.map(|_| ()))),
            }
            let d = py.call_method("ifd", Args::pos(vec![Obj::int(0u8)])).map_err(|e| e.to_string())?;
            let r = guarded("tile_byte_range", || d.call_method("tile_byte_range", Args::pos(xy(x, y))))?;
            let rng = |r: &Range<u64>| Obj::tuple(vec![Obj::int(r.start), Obj::int(r.end)]);
            match rust.ifds()[0].tile_byte_range(x, y) {
                Some(w) => {
                    let w = match w {
                        TileByteRange::Chunky(r) => rng(&r),
                        TileByteRange::Planar(v) => Obj::list(v.iter().map(rng).collect()),
                    };
                    ensure!(matches!(&r, Ok(o) if show(o) == show(&w)), "tile_byte_range({x}, {y}) is {} instead of {w:?}", show_r(&r));
                }
                None => ensure!(matches!(&r, Err(e) if e.class() == "ValueError"), "tile_byte_range({x}, {y}) is {}", show_r(&r)),
            }
            ch.observe((got.is_ok(), r.is_ok()));
            Ok(())
        }),
        body("decoders of Python", move |ch| {
            let codes = [1u16, 5, 8, 50000, 32946, 40000];
            let comp = ch.pick(&[Comp::None, Comp::Deflate, Comp::Lzw, Comp::Zstd]);
            let mask = ch.choose(1 << codes.len());
            let planar = ch.flag();
            let how = ch.choose(5);
            let fail = ch.choose(3);
            let as_enum = ch.flag();
            ch.step((comp, mask, planar, how, fail, as_enum));
            let i = image(FMTS[0], 1, 8, 2, planar, comp);
            let size = if planar { 12 } else { 24 };
            let b = file(&[i], Layout::Cog);
            let calls: Vec<Arc<Mutex<Vec<_>>>> = codes.iter().map(|_| Default::default()).collect();
            let out = |k: usize| -> Vec<u8> { (0..size).map(|x| (x * 5 + k * 31) as u8).collect() };
            let mut d = vec![];
            for k in (0..codes.len()).filter(|k| mask >> k & 1 == 1) {
                let key = if as_enum { member("Compression", codes[k]) } else { Obj::int(codes[k]) };
                let out = match fail {
                    0 => Ok(out(k)),
                    1 => Err("on purpose"),
                    _ => Ok(out(k)[..size - 1].to_vec()),
                };
                d.push((key, Obj::native(Deco { calls: calls[k].clone(), out })));
            }
            let reg = class("DecoderRegistry")?.call(Args::default().kw("custom_decoders", Obj::dict(d))).map_err(|e| e.to_string())?;
            let py = open_py(Obj::native(Backend::new(b.bytes.clone()))).map_err(|e| e.to_string())?;
            let tile = wait(fetch(&py, 0, &[(0, 0)], true, false)).map_err(|e| e.to_string())?;
            let rust = open_rust(&b.bytes)?;
            let w = block_on(rust.ifds()[0].fetch_tile(0, 0, &Mem::new(b.bytes.clone()))).map_err(|e| e.to_string())?;
            let stored: Vec<Bytes> = match w.compressed_bytes() {
                CompressedBytes::Chunky(x) => vec![x.clone()],
                CompressedBytes::Planar(v) => v.clone(),
            };
            let got = guarded("decode", || decode(&tile, how, Some(&reg)))?;
            let mine = codes.iter().position(|c| *c == comp.code()).filter(|k| mask >> k & 1 == 1);
            for (k, c) in calls.iter().enumerate() {
                let seen: Vec<Bytes> = c.lock().unwrap().iter().map(|x| x.1.clone()).collect();
                if Some(k) != mine {
                    ensure!(seen.is_empty(), "the decoder of {} is called for a tile of {}", codes[k], comp.code());
                } else if fail == 0 {
                    ensure!(seen == stored, "the decoder is given {seen:?} instead of {stored:?}");
                } else {
                    ensure!(!seen.is_empty(), "the decoder is not called");
                }
            }
            ch.observe((mine.is_some(), got.is_ok()));
            match mine {
                None => check_array(got, &w.decode(&DecoderRegistry::default()).map_err(|e| e.to_string())),
                Some(k) => match fail {
                    0 => {
                        let want: Vec<u64> = stored.iter().flat_map(|_| out(k)).map(|x| x as u64).collect();
                        let s = view(got.map_err(|e| format!("decoding raises {e}"))?, want.len())?;
                        ensure!(s.items == want, "decoded to {:?} instead of what the decoder returned", s.items);
                        Ok(())
                    }
                    1 => {
                        ensure!(matches!(&got, Err(e) if e.message().contains("on purpose")), "the decoder's error gives {}", show_r(&got));
                        Ok(())
                    }
                    _ => {
                        ensure!(got.is_err(), "too few bytes of a decoder give {}", show_r(&got));
                        Ok(())
                    }
                },
            }
        }),
        body("registries and stores that are none", |ch| {
            let (what, o) = match ch.choose(6) {
                0 => ("an int", Obj::int(3u8)),
                1 => ("a str", Obj::str("x")),
                2 => ("None", Obj::none()),
                3 => ("a list", Obj::list(vec![])),
                4 => ("an object", Obj::native(Deco { calls: Default::default(), out: Ok(vec![]) })),
                _ => ("bytes", Obj::bytes(vec![1u8])),
            };
            let callable = what == "an object";
            ch.step(what);
            let r = guarded("DecoderRegistry", || class("DecoderRegistry").unwrap().call(Args::pos(vec![Obj::dict(vec![(Obj::int(8u8), o.clone())])])))?;
            ensure!(r.is_ok() == callable, "a registry with {what} as a decoder: {}", show_r(&r));
            let r = guarded("open", || open_py(o))?;
            ensure!(matches!(&r, Err(e) if e.class() == "TypeError"), "opening from {what}: {}", show_r(&r));
            let r = class("DecoderRegistry")?.call(Args::pos(vec![]));
            ensure!(r.is_ok(), "DecoderRegistry(): {}", show_r(&r));
            Ok(())
        }),
        body("requests by prefetch and multiplier", move |ch| {
            let fmt = ch.pick(&FMTS);
            let layout = ch.pick(&LAYOUTS);
            let prefetch = ch.pick(&[None, Some(1u64), Some(16), Some(100), Some(1000), Some(1 << 20)]);
            let multiplier = ch.pick(&[None, Some(1.5f64), Some(2.0), Some(10.0)]);
            let n = ch.pick(&[1usize, 3]);
            ch.step((layout, prefetch, multiplier.map(f64::to_bits), n));
            let imgs: Vec<Img> = (0..n).map(|k| Img { w: 60, h: 50, seed: k as u64, ..image(fmt, 1, 8, 1, false, Comp::None) }).collect();
            let b = file(&imgs, layout);
            let back = Backend::new(b.bytes.clone());
            let log = back.log.clone();
            let mut a = Args::pos(vec![Obj::str("a/b.tif")]).kw("store", Obj::native(back));
            if let Some(p) = prefetch {
                a = a.kw("prefetch", Obj::int(p));
            }
            if let Some(m) = multiplier {
                a = a.kw("multiplier", if m == 2.0 { Obj::int(2u8) } else { Obj::float(m) });
            }
            wait(class("TIFF")?.call_method("open", a)).map_err(|e| e.to_string())?;
            let got: Vec<Range<u64>> = log.lock().unwrap().iter().flatten().cloned().collect();
            let m = Mem::new(b.bytes.clone()).eof(Eof::Clamp);
            let c = ReadaheadMetadataCache::new(m.clone()).with_initial_size(prefetch.unwrap_or(32768)).with_multiplier(multiplier.unwrap_or(2.0));
            block_on(async {
                let mut r = TiffMetadataReader::try_open(&c).await?;
                r.read(&c).await
            })
            .map_err(|e: async_tiff::error::AsyncTiffError| e.to_string())?;
            let want: Vec<Range<u64>> = m.log().into_iter().flat_map(|r| match r {
                Req::One(r) => vec![r],
                Req::Many(v) => v,
            }).collect();
            ensure!(got == want, "requests {got:?} where the library makes {want:?}");
            ch.observe(got.len());
            Ok(())
        }),
        body("arrays of bytes", move |ch| {
            let pre = ch.pick(&["", "<", "@", "=", "|", ">", "x"]);
            let ty = ch.pick(&["B", "H", "I", "Q", "b", "h", "i", "q", "f", "d", "", "Z", "HH", "c"]);
            let shape = [ch.choose(3), ch.choose(3), ch.pick(&[0usize, 1, 2, 1 << 31, usize::MAX / 2])];
            let size = KINDS.iter().find(|k| k.3 == ty && k.1 > 1).map(|k| k.1 as usize / 8);
            let n = shape.iter().try_fold(size.unwrap_or(1), |a, x| a.checked_mul(*x));
            let len = match ch.choose(5) {
                0 => n.unwrap_or(8),
                1 => n.unwrap_or(8).saturating_sub(1),
                2 => n.unwrap_or(8).saturating_add(1),
                3 => n.unwrap_or(8).saturating_mul(2),
                _ => 0,
            };
            // strides of an empty array with a huge dimension mean nothing
            if len > 4096 || shape.contains(&0) && shape[2] > 2 {
                return Ok(());
            }
            ch.step((pre, ty, shape, len));
            ch.note(|| format!("{len} bytes, shape {shape:?}, {pre}{ty}"));
            let bytes: Vec<u8> = (0..len).map(|x| (x * 7 + 3) as u8).collect();
            let s = Obj::tuple(shape.iter().map(|x| Obj::int(*x as u64)).collect());
            let a = Args::pos(vec![Obj::bytes(bytes.clone())]).kw("shape", s).kw("format", Obj::str(&format!("{pre}{ty}")));
            let got = guarded("Array", || class("Array").unwrap().call(a))?;
            let good = size.is_some() && pre != "x" && n == Some(len);
            ch.observe((good, got.is_ok()));
            if !good {
                ensure!(got.is_err(), "an array of {len} bytes with shape {shape:?} and format {pre}{ty}");
                return Ok(());
            }
            // bytes of the other order cannot be shown as they are
            if pre == ">" {
                return Ok(());
            }
            let o = got.map_err(|e| format!("Array raises {e}"))?;
            let size = size.unwrap();
            let items: Vec<u64> = bytes.chunks(size).map(|c| c.iter().rev().fold(0, |a, b| a << 8 | *b as u64)).collect();
            let s = view(o, items.len())?;
            ensure!(s.shape == shape.map(|x| x as isize) && s.format.as_deref() == Some(ty) && s.items == items, "shape {:?}, format {:?}, {:x?}", s.shape, s.format, s.items);
            Ok(())
        }),
        body("missing objects and failing stores", move |ch| {
            let at = ch.choose(t.sel(4, 6));
            let fmt = ch.pick(&FMTS);
            ch.step((at, fmt));
            let b = file(&[image(fmt, 1, 8, 1, false, Comp::None)], Layout::Cog);
            if at == 0 {
                let s = pyo3_object_store::store_object(Arc::new(InMemory::new()) as Arc<dyn ObjectStore>);
                let r = guarded("open", || open_py(s))?;
                ensure!(matches!(&r, Err(e) if e.class() == "FileNotFoundError"), "opening what is not there: {}", show_r(&r));
                return Ok(());
            }
            // an object that ends too early
            let cut = b.bytes.len() * (at - 1) / 5;
            let store = ch.flag();
            check_file(ch, &b.bytes[..cut.max(1)], store).map(|_| ())
        }),
        body("awaitables under every schedule", move |ch| {
            let n = ch.pick(t.sel(&[2usize][..], &[2, 3][..]));
            let kinds: Vec<usize> = (0..n).map(|_| ch.choose(t.sel(3, 4))).collect();
            schedules(ch, &kinds, t.sel(1 << 16, 400), 0, 0)
        }),
        body("awaitables, one failure and one cancellation", move |ch| {
            let kinds = [ch.choose(t.sel(3, 4)), ch.choose(t.sel(3, 4))];
            let f = ch.choose(2);
            schedules(ch, &kinds, t.sel(1 << 16, 400), f, 1 - f)
        }),
    ];
    (
        bodies,
        about(
            "the Rust sources of the extension on: 63 tags x values of every field type, all pairs of tags, all tags but one; every geo key and pair; 1 to 3 directories in 5 layouts; zero offsets; tiles of 11 element types x layouts x 4 compressions x every way to fetch and decode; tiles out of range; decoders of Python for every subset of 6 codes; prefetch and multiplier; constructed arrays; 2 (3) awaitables under every schedule, also with a failure or a cancellation",
            &[
                "stand-ins take the place of pyo3, pyo3-bytes, pyo3-async-runtimes, pyo3-object_store and tokio-rayon, which are not installed: what those crates do themselves (conversion of numbers and text, borrow checks, the event loop, the stores, the thread pool) is modelled, not checked",
                "the enumerations are those of python/python/async_tiff/enums.py, read through Python",
            ],
        ),
    )
}

/// Several awaitables of one file, polled and answered in every order.
fn schedules(ch: &mut Ch, kinds: &[usize], prefetch: u32, faults: usize, drops: usize) -> Result<(), String> {
    let i = image(FMTS[0], 1, 16, 2, true, Comp::None);
    let j = Img { w: 4, h: 3, seed: 3, planar: false, ..i };
    let b = file(&[i, j], Layout::Cog);
    let rust = open_rust(&b.bytes)?;
    let m = Mem::new(b.bytes.clone());
    // open through a backend that answers at once, fetch through the same object with gates
    let env = GateEnv::new();
    let gate = Arc::new(Mutex::new(None::<GateEnv>));
    struct Late(Backend, Arc<Mutex<Option<GateEnv>>>);
    impl Native for Late {
        fn as_any(&self) -> &dyn std::any::Any {
            self
        }
        fn hasattr(&self, n: &str) -> bool {
            self.0.hasattr(n)
        }
        fn call_method(&self, n: &str, a: Args) -> PyResult<Obj> {
            let b = Backend { data: self.0.data.clone(), path: self.0.path, env: self.1.lock().unwrap().clone(), log: self.0.log.clone() };
            b.call_method(n, a)
        }
    }
    let back = Obj::native(Late(Backend::new(b.bytes.clone()), gate.clone()));
    let py = open_py(back.clone()).map_err(|e| e.to_string())?;
    *gate.lock().unwrap() = Some(env.clone());
    let out: Arc<Mutex<Vec<Option<PyResult<Obj>>>>> = Arc::new(Mutex::new(vec![None; kinds.len()]));
    let at = |k: usize| -> (usize, Vec<(usize, usize)>) {
        match k % 2 {
            0 => (0, vec![(1, k / 2), (0, 1)]),
            _ => (1, vec![(0, 0)]),
        }
    };
    let mut tasks: Vec<Option<Task<'_>>> = vec![];
    for (n, kind) in kinds.iter().enumerate() {
        let (z, v) = at(n);
        // a call runs up to its first suspension when it is awaited
        let call = match kind {
            0 => fetch(&py, z, &v, false, false),
            1 => fetch(&py, z, &v, true, true),
            2 => fetch(&py, z, &v, false, true),
            _ => class("TIFF")?.call_method("open", Args::pos(vec![Obj::str("a/b.tif")]).kw("store", back.clone()).kw("prefetch", Obj::int(prefetch))),
        };
        let f = call.and_then(|o| o.take_future()).map_err(|e| e.to_string())?;
        let out = out.clone();
        tasks.push(Some(Box::pin(async move {
            let r = std::panic::AssertUnwindSafe(f).catch_unwind().await;
            let r = r.unwrap_or_else(|_| Err(PyErr::of("PanicException", "a panic")));
            out.lock().unwrap()[n] = Some(r);
        })));
    }
    let log = {
        const FULL: &[Answer] = &[Answer::Full];
        const BOTH: &[Answer] = &[Answer::Full, Answer::Fail];
        let lim = Limits { drops, faults, answers: if faults > 0 { BOTH } else { FULL } };
        sched(ch, tasks, &env, lim, |ch, a, fin| {
            ch.step((format!("{a:?}"), fin.to_vec()));
            Ok(())
        })?
    };
    let failed = env.0.lock().unwrap().ops.iter().filter(|o| o.done == Some(Answer::Fail)).count();
    let mut bad = 0;
    for (n, kind) in kinds.iter().enumerate() {
        let r = out.lock().unwrap()[n].take();
        if log.dropped[n] {
            ensure!(r.is_none(), "a cancelled call has a result");
            continue;
        }
        let r = r.ok_or("a call without a result")?;
        let o = match r {
            Ok(o) => o,
            Err(e) => {
                bad += 1;
                ensure!(bad <= failed && e.message().contains("injected"), "call {n} ({kind}) raises {e}");
                continue;
            }
        };
        if *kind == 3 {
            let l = o.attr("ifds").map_err(|e| e.to_string())?;
            let Kind::List(l) = l.kind() else { return Err("no list".into()) };
            ensure!(l.len() == rust.ifds().len(), "{} directories", l.len());
            for (o, d) in l.iter().zip(rust.ifds()) {
                check_ifd(o, d)?;
            }
            continue;
        }
        let (z, mut v) = at(n);
        if *kind == 0 {
            v.truncate(1);
        }
        let list = match o.kind() {
            Kind::List(l) => l.clone(),
            _ => vec![o.clone()],
        };
        ensure!(list.len() == v.len(), "call {n}: {} tiles instead of {}", list.len(), v.len());
        for (o, (x, y)) in list.iter().zip(&v) {
            let w = block_on(rust.ifds()[z].fetch_tile(*x, *y, &m)).map_err(|e| e.to_string())?;
            check_tile(o, w, n % 2, None, &DecoderRegistry::default()).map_err(|e| format!("call {n}, tile {x}, {y}: {e}"))?;
        }
    }
    ensure!(bad == failed || failed > 0 && drops > 0, "{failed} failed requests, {bad} exceptions");
    ch.observe((bad, log.acts.len()));
    Ok(())
}
