//! C24: the enumerations of the Python package.
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::OnceLock;

use async_tiff::tags::{Compression, ExtraSamples, PhotometricInterpretation, PlanarConfiguration, Predictor, ResolutionUnit, SampleFormat};

use super::{about, About};
use crate::engine::{body, Body};
use crate::ensure;
use crate::Tier;

/// Class, members with their codes, whether the library names a code.
#[rustfmt::skip]
const CLASSES: &[(&str, &[(&str, u16)], fn(u16) -> bool)] = &[
    ("Compression", &[("Uncompressed", 1), ("Huffman", 2), ("Fax3", 3), ("Fax4", 4), ("LZW", 5), ("JPEG", 6), ("ModernJPEG", 7), ("Deflate", 8),
        ("OldDeflate", 32946), ("PackBits", 32773), ("LERC", 34887), ("WebP", 50001), ("LZMA", 34925), ("JPEG2k", 34712), ("ZSTD", 50000)],
        |c| Compression::from_u16(c).is_some()),
    ("ExtraSamples", &[("Unspecified", 0), ("AssociatedAlpha", 1), ("UnassociatedAlpha", 2)], |c| ExtraSamples::from_u16(c).is_some()),
    ("PhotometricInterpretation", &[("WhiteIsZero", 0), ("BlackIsZero", 1), ("RGB", 2), ("RGBPalette", 3), ("TransparencyMask", 4), ("CMYK", 5),
        ("YCbCr", 6), ("CIELab", 8)], |c| PhotometricInterpretation::from_u16(c).is_some()),
    ("PlanarConfiguration", &[("Chunky", 1), ("Planar", 2)], |c| PlanarConfiguration::from_u16(c).is_some()),
    ("Predictor", &[("Unknown", 1), ("Horizontal", 2), ("FloatingPoint", 3)], |c| Predictor::from_u16(c).is_some()),
    ("ResolutionUnit", &[("Unknown", 1), ("Inch", 2), ("Centimeter", 3)], |c| ResolutionUnit::from_u16(c).is_some()),
    ("SampleFormat", &[("Uint", 1), ("Int", 2), ("Float", 3), ("Void", 4)], |c| SampleFormat::from_u16(c).is_some()),
];

/// Asks the real module about every member and every 16-bit code of every class.
const SCRIPT: &str = r#"
import enum, runpy, sys
m = runpy.run_path(sys.argv[1])
for n in sys.argv[2:]:
    c = m[n]
    for k in c.__members__:
        print("M", n, k, int(c[k]), int(getattr(c, k)), isinstance(c[k], int))
    for code in range(65536):
        try: v = c(code)
        except ValueError: continue
        print("C", n, v.name, code, int(v), v == code and hash(v) == hash(code))
"#;

type Line = (String, String, u64, u64, bool);

fn ask() -> Result<BTreeMap<String, Vec<(char, Line)>>, String> {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut c = Command::new("python3");
    c.args(["-I", "-B", "-c", SCRIPT]).arg(format!("{repo}/python/python/async_tiff/enums.py"));
    c.args(CLASSES.iter().map(|x| x.0)).arg("Endianness");
    let o = c.output().map_err(|e| format!("python3: {e}"))?;
    ensure!(o.status.success(), "async_tiff.enums cannot be used: {}", String::from_utf8_lossy(&o.stderr));
    let mut out: BTreeMap<String, Vec<(char, Line)>> = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let f: Vec<&str> = l.split(' ').collect();
        ensure!(f.len() == 6, "unexpected line {l}");
        let num = |s: &str| s.parse::<u64>().map_err(|e| format!("{l}: {e}"));
        out.entry(f[1].into()).or_default().push((f[0].chars().next().unwrap(), (f[1].into(), f[2].into(), num(f[3])?, num(f[4])?, f[5] == "True")));
    }
    Ok(out)
}

fn answers() -> Result<&'static BTreeMap<String, Vec<(char, Line)>>, String> {
    static A: OnceLock<Result<BTreeMap<String, Vec<(char, Line)>>, String>> = OnceLock::new();
    A.get_or_init(ask).as_ref().map_err(|e| e.clone())
}

pub fn get(_: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every 16-bit code of every enumeration", |ch| {
            let (class, table, rust) = ch.pick(CLASSES);
            let code = ch.choose(1 << 16) as u16;
            let lines = answers()?.get(class).ok_or_else(|| format!("{class} has no members"))?;
            let got: Vec<&Line> = lines.iter().filter(|l| l.0 == 'C' && l.1 .2 == code as u64).map(|l| &l.1).collect();
            let want = table.iter().find(|x| x.1 == code);
            ch.step((class, code));
            match (got.first(), want) {
                (Some(g), Some(w)) => ensure!(g.1 == w.0 && g.3 == code as u64 && g.4, "{class}({code}) is {} = {} instead of {}", g.1, g.3, w.0),
                (None, Some(w)) => return Err(format!("{class}({code}) is an error instead of {}", w.0)),
                // a further name is for a code the library names too
                (Some(g), None) => ensure!(rust(code) && g.3 == code as u64, "{class}({code}), which is none, is {}", g.1),
                (None, None) => {}
            }
            ensure!(want.is_none() || rust(code), "{class}({code}) is unknown to the library");
            ch.observe((class, got.len()));
            Ok(())
        }),
        body("every member by name", |ch| {
            let (class, table, rust) = ch.pick(CLASSES);
            let (name, code) = ch.pick(table);
            ch.step((class, name));
            let lines = answers()?.get(class).ok_or_else(|| format!("{class} has no members"))?;
            let g = lines.iter().find(|l| l.0 == 'M' && l.1 .1 == name).ok_or_else(|| format!("{class}.{name} does not exist"))?;
            ensure!(g.1 .2 == code as u64 && g.1 .3 == code as u64 && g.1 .4, "{class}.{name} is {} instead of {code}", g.1 .2);
            ensure!(lines.iter().all(|l| l.1 .2 < 65536 && rust(l.1 .2 as u16)), "{class} has members without a meaning: {lines:?}");
            Ok(())
        }),
        body("byte orders", |ch| {
            ch.step(());
            let lines = answers()?.get("Endianness").ok_or("Endianness has no members")?;
            let of = |n: &str| lines.iter().find(|l| l.0 == 'M' && l.1 .1 == n).map(|l| l.1 .2);
            ensure!(of("LittleEndian") == Some(0) && of("BigEndian") == Some(1), "byte orders: {lines:?}");
            ensure!(lines.iter().filter(|l| l.0 == 'M').count() == 2, "more than two byte orders: {lines:?}");
            Ok(())
        }),
    ];
    (
        bodies,
        about(
            "all 65536 codes of 7 enumerations and all their members by name, through the Python interpreter; the 2 byte orders",
            &["python/python/async_tiff/enums.py is loaded from the working tree by itself; the extension module is not built"],
        ),
    )
}
