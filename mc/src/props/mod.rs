//! One module per property.
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::{Array, DataType, TypedArray, TIFF};

use crate::engine::Body;
use crate::exec::block_on;
use crate::tiffw::{e, Entry, V};
use crate::Tier;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
#[cfg(feature = "py")]
mod c23;
mod c24;
mod c25;
mod kit;

pub struct About {
    pub bounds: String,
    pub assumptions: Vec<String>,
}

pub fn about(bounds: impl Into<String>, assumptions: &[&str]) -> About {
    About {
        bounds: bounds.into(),
        assumptions: assumptions.iter().map(|s| s.to_string()).collect(),
    }
}

pub fn get(id: &str, tier: Tier) -> Option<(Vec<Body>, About)> {
    Some(match id {
        "C01" => c01::get(tier),
        "C02" => c02::get(tier),
        "C03" => c03::get(tier),
        "C04" => c04::get(tier),
        "C05" => c05::get(tier),
        "C06" => c06::get(tier),
        "C07" => c07::get(tier),
        "C08" => c08::get(tier),
        "C09" => c09::get(tier),
        "C10" => c10::get(tier),
        "C11" => c11::get(tier),
        "C12" => c12::get(tier),
        "C13" => c13::get(tier),
        "C14" => c14::get(tier),
        "C15" => c15::get(tier),
        "C16" => c16::get(tier),
        "C17" => c17::get(tier),
        "C18" => c18::get(tier),
        "C19" => c19::get(tier),
        "C20" => c20::get(tier),
        "C21" => c21::get(tier),
        "C22" => c22::get(tier),
        #[cfg(feature = "py")]
        "C23" => c23::get(tier),
        "C24" => c24::get(tier),
        "C25" => c25::get(tier),
        _ => return None,
    })
}

/// The mandatory entries of a directory of the given width.
pub fn base_w(w: u32) -> Vec<Entry> {
    vec![
        e(256, V::Long(vec![w])),
        e(257, V::Short(vec![7])),
        e(258, V::Short(vec![8])),
        e(262, V::Short(vec![1])),
        e(277, V::Short(vec![1])),
    ]
}
pub fn base() -> Vec<Entry> {
    base_w(5)
}

pub async fn open_async<F: MetadataFetch>(f: &F) -> AsyncTiffResult<TIFF> {
    let mut r = TiffMetadataReader::try_open(f).await?;
    r.read(f).await
}

pub fn open<F: MetadataFetch>(f: &F) -> AsyncTiffResult<TIFF> {
    block_on(open_async(f))
}

/// Elements of a decoded array as raw bits, with the name of their type.
pub fn bits_of(a: &TypedArray) -> (&'static str, Vec<u64>) {
    match a {
        TypedArray::Bool(v) => ("bool", v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt8(v) => ("u8", v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt16(v) => ("u16", v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt32(v) => ("u32", v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt64(v) => ("u64", v.clone()),
        TypedArray::Int8(v) => ("i8", v.iter().map(|x| *x as u8 as u64).collect()),
        TypedArray::Int16(v) => ("i16", v.iter().map(|x| *x as u16 as u64).collect()),
        TypedArray::Int32(v) => ("i32", v.iter().map(|x| *x as u32 as u64).collect()),
        TypedArray::Int64(v) => ("i64", v.iter().map(|x| *x as u64).collect()),
        TypedArray::Float32(v) => ("f32", v.iter().map(|x| x.to_bits() as u64).collect()),
        TypedArray::Float64(v) => ("f64", v.iter().map(|x| x.to_bits()).collect()),
    }
}

pub fn type_name(t: Option<DataType>) -> &'static str {
    match t {
        None => "none",
        Some(DataType::Bool) => "bool",
        Some(DataType::UInt8) => "u8",
        Some(DataType::UInt16) => "u16",
        Some(DataType::UInt32) => "u32",
        Some(DataType::UInt64) => "u64",
        Some(DataType::Int8) => "i8",
        Some(DataType::Int16) => "i16",
        Some(DataType::Int32) => "i32",
        Some(DataType::Int64) => "i64",
        Some(DataType::Float32) => "f32",
        Some(DataType::Float64) => "f64",
    }
}

/// The element type the tags announce, from the specification.
pub fn expect_type(sf: u16, bits: u16) -> Option<&'static str> {
    Some(match (sf, bits) {
        (1, 1) => "bool",
        (1, 8) => "u8",
        (1, 16) => "u16",
        (1, 32) => "u32",
        (1, 64) => "u64",
        (2, 8) => "i8",
        (2, 16) => "i16",
        (2, 32) => "i32",
        (2, 64) => "i64",
        (3, 32) => "f32",
        (3, 64) => "f64",
        _ => return None,
    })
}

/// Compare a decoded array with what was written.
pub fn check_array(
    a: &Array,
    ty: &str,
    shape: [usize; 3],
    want: &[u64],
    what: &str,
) -> Result<(), String> {
    let (name, got) = bits_of(a.data());
    if name != ty || type_name(a.data_type()) != ty {
        return Err(format!(
            "{what}: element type {name} / {}, written {ty}",
            type_name(a.data_type())
        ));
    }
    if a.shape() != shape {
        return Err(format!("{what}: shape {:?}, written {shape:?}", a.shape()));
    }
    if got != want {
        let i = got.iter().zip(want).position(|(x, y)| x != y);
        return Err(format!(
            "{what}: {} elements, written {}; first difference at {i:?}: {:x?} instead of {:x?}",
            got.len(),
            want.len(),
            i.map(|i| got[i]),
            i.map(|i| want[i])
        ));
    }
    Ok(())
}
