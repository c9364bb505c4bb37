//! C19: conversions of tag values.
use async_tiff::TagValue;

use super::{about, About};
use crate::engine::{body, Body, Ch};
use crate::ensure;
use crate::Tier;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum To {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    Text,
    U8v,
    U16v,
    U32v,
    I32v,
    U64v,
    I64v,
    F32v,
    F64v,
}
const TOS: [To; 19] = [
    To::U8, To::I8, To::U16, To::I16, To::U32, To::I32, To::U64, To::I64, To::F32, To::F64, To::Text, To::U8v, To::U16v, To::U32v, To::I32v, To::U64v, To::I64v, To::F32v, To::F64v,
];

/// What a conversion gave, as exact numbers.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum N {
    Int(i128),
    F32(u32),
    F64(u64),
    Text(String),
}

fn apply(v: TagValue, to: To) -> Result<Vec<N>, String> {
    fn i<T: Into<i128>>(x: T) -> N {
        N::Int(x.into())
    }
    macro_rules! one { ($m:ident) => { v.$m().map(|x| vec![i(x)]) } }
    macro_rules! many { ($m:ident) => { v.$m().map(|x| x.into_iter().map(i).collect()) } }
    match to {
        To::U8 => one!(into_u8),
        To::I8 => one!(into_i8),
        To::U16 => one!(into_u16),
        To::I16 => one!(into_i16),
        To::U32 => one!(into_u32),
        To::I32 => one!(into_i32),
        To::U64 => one!(into_u64),
        To::I64 => one!(into_i64),
        To::F32 => v.into_f32().map(|x| vec![N::F32(x.to_bits())]),
        To::F64 => v.into_f64().map(|x| vec![N::F64(x.to_bits())]),
        To::Text => v.into_string().map(|x| vec![N::Text(x)]),
        To::U8v => many!(into_u8_vec),
        To::U16v => many!(into_u16_vec),
        To::U32v => many!(into_u32_vec),
        To::I32v => many!(into_i32_vec),
        To::U64v => many!(into_u64_vec),
        To::I64v => many!(into_i64_vec),
        To::F32v => v.into_f32_vec().map(|x| x.into_iter().map(|x| N::F32(x.to_bits())).collect()),
        To::F64v => v.into_f64_vec().map(|x| x.into_iter().map(|x| N::F64(x.to_bits())).collect()),
    }
    .map_err(|e| e.to_string())
}

/// The single conversion behind a list conversion.
fn elem(to: To) -> (To, bool) {
    match to {
        To::U8v => (To::U8, true),
        To::U16v => (To::U16, true),
        To::U32v => (To::U32, true),
        To::I32v => (To::I32, true),
        To::U64v => (To::U64, true),
        To::I64v => (To::I64, true),
        To::F32v => (To::F32, true),
        To::F64v => (To::F64, true),
        t => (t, false),
    }
}

/// Does the number fit the target?
fn fits(to: To, x: i128) -> bool {
    match to {
        To::U8 => u8::try_from(x).is_ok(),
        To::I8 => i8::try_from(x).is_ok(),
        To::U16 => u16::try_from(x).is_ok(),
        To::I16 => i16::try_from(x).is_ok(),
        To::U32 => u32::try_from(x).is_ok(),
        To::I32 => i32::try_from(x).is_ok(),
        To::U64 => u64::try_from(x).is_ok(),
        To::I64 => i64::try_from(x).is_ok(),
        _ => false,
    }
}

#[derive(Clone, Debug)]
enum Want {
    /// Accepted with this value.
    Must(Vec<N>),
    /// An error or one of these values.
    May(Vec<Vec<N>>),
}

/// The integer behind a value, its sign kind and whether it is an offset.
fn int(v: &TagValue) -> Option<(i128, bool, bool)> {
    use TagValue::*;
    Some(match v {
        Byte(x) => (*x as i128, false, false),
        Short(x) => (*x as i128, false, false),
        Unsigned(x) => (*x as i128, false, false),
        UnsignedBig(x) => (*x as i128, false, false),
        Ifd(x) => (*x as i128, false, true),
        IfdBig(x) => (*x as i128, false, true),
        SignedByte(x) => (*x as i128, true, false),
        SignedShort(x) => (*x as i128, true, false),
        Signed(x) => (*x as i128, true, false),
        SignedBig(x) => (*x as i128, true, false),
        _ => return None,
    })
}

fn want(v: &TagValue, to: To) -> Want {
    use TagValue::*;
    let (el, list) = elem(to);
    let pair = |a: i128, b: i128| match fits(el, a) && fits(el, b) {
        true => Want::May(vec![vec![N::Int(a), N::Int(b)]]),
        false => Want::May(vec![]),
    };
    match v {
        List(vs) => {
            if !list {
                // a list of one is a number to some
                return Want::May(match &vs[..] {
                    [x] => match want(x, to) {
                        Want::Must(y) => vec![y],
                        Want::May(y) => y,
                    },
                    _ => vec![],
                });
            }
            let mut must = true;
            let mut alts: Vec<Vec<N>> = vec![vec![]];
            for x in vs {
                let next = match (matches!(x, List(_)), want(x, to)) {
                    (false, Want::Must(y)) => vec![y],
                    (_, Want::Must(y)) => {
                        must = false;
                        vec![y]
                    }
                    (_, Want::May(ys)) => {
                        must = false;
                        ys
                    }
                };
                alts = alts.iter().flat_map(|a| next.iter().map(move |n| [&a[..], &n[..]].concat())).collect();
            }
            if must {
                Want::Must(alts.remove(0))
            } else {
                Want::May(alts)
            }
        }
        Ascii(s) => match (to, el, list) {
            (To::Text, ..) => Want::Must(vec![N::Text(s.clone())]),
            (_, _, true) => {
                let x: Vec<N> = s.chars().map(|c| N::Int(c as i128)).collect();
                match s.chars().all(|c| fits(el, c as i128)) {
                    true => Want::May(vec![x]),
                    false => Want::May(vec![]),
                }
            }
            _ => Want::May(vec![]),
        },
        Float(f) => match el {
            To::F32 => Want::Must(vec![N::F32(f.to_bits())]),
            To::F64 => Want::May(vec![vec![N::F64((*f as f64).to_bits())]]),
            _ => Want::May(if f.fract() == 0.0 && fits(el, *f as i128) { vec![vec![N::Int(*f as i128)]] } else { vec![] }),
        },
        Double(f) => match el {
            To::F64 => Want::Must(vec![N::F64(f.to_bits())]),
            To::F32 => Want::May(if (*f as f32) as f64 == *f { vec![vec![N::F32((*f as f32).to_bits())]] } else { vec![] }),
            _ => Want::May(if f.fract() == 0.0 && fits(el, *f as i128) { vec![vec![N::Int(*f as i128)]] } else { vec![] }),
        },
        Rational(a, b) if list => pair(*a as i128, *b as i128),
        RationalBig(a, b) if list => pair(*a as i128, *b as i128),
        SRational(a, b) if list => pair(*a as i128, *b as i128),
        SRationalBig(a, b) if list => pair(*a as i128, *b as i128),
        Rational(..) | RationalBig(..) | SRational(..) | SRationalBig(..) => Want::May(vec![]),
        v => {
            let Some((x, signed, off)) = int(v) else { return Want::May(vec![]) };
            let float = match el {
                To::F32 => (x.unsigned_abs() < 1 << 24).then(|| N::F32((x as f32).to_bits())),
                To::F64 => (x.unsigned_abs() < 1 << 53).then(|| N::F64((x as f64).to_bits())),
                _ => None,
            };
            if let Some(f) = float {
                return Want::May(vec![vec![f]]);
            }
            if !fits(el, x) {
                return Want::May(vec![]);
            }
            let got = vec![N::Int(x)];
            // kinds the conversion is for
            let meant = match el {
                To::U8 => matches!(v, Byte(_)),
                To::I8 => matches!(v, SignedByte(_)),
                To::U16 => !signed && !off,
                To::U32 | To::U64 => !signed,
                To::I16 | To::I32 | To::I64 => signed,
                _ => false,
            };
            if meant {
                Want::Must(got)
            } else {
                Want::May(vec![got])
            }
        }
    }
}

fn check(ch: &mut Ch, v: &TagValue) -> Result<(), String> {
    for to in TOS {
        let got = apply(v.clone(), to);
        ch.step((to, &got));
        match (want(v, to), got) {
            (Want::Must(w), Ok(g)) => ensure!(g == w, "{v:?} as {to:?} is {g:?} instead of {w:?}"),
            (Want::Must(w), Err(e)) => return Err(format!("{v:?} as {to:?} is refused ({e}) instead of {w:?}")),
            (Want::May(ws), Ok(g)) => ensure!(ws.contains(&g), "{v:?} as {to:?} is {g:?}"),
            (Want::May(_), Err(_)) => {}
        }
    }
    Ok(())
}

fn ints() -> Vec<i128> {
    let mut v = vec![];
    for k in [0u32, 7, 8, 15, 16, 31, 32, 63, 64] {
        for d in [-2i128, -1, 0, 1] {
            let x = (1i128 << k) + d;
            v.extend([x, -x]);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn scalars() -> Vec<TagValue> {
    use TagValue::*;
    let xs = ints();
    let mut v = vec![];
    for x in &xs {
        let x = *x;
        v.extend(u8::try_from(x).ok().map(Byte));
        v.extend(u16::try_from(x).ok().map(Short));
        v.extend(u32::try_from(x).ok().map(Unsigned));
        v.extend(u64::try_from(x).ok().map(UnsignedBig));
        v.extend(u32::try_from(x).ok().map(Ifd));
        v.extend(u64::try_from(x).ok().map(IfdBig));
        v.extend(i8::try_from(x).ok().map(SignedByte));
        v.extend(i16::try_from(x).ok().map(SignedShort));
        v.extend(i32::try_from(x).ok().map(Signed));
        v.extend(i64::try_from(x).ok().map(SignedBig));
    }
    for f in [0.0f32, -0.0, 1.0, 1.5, f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, 16777217.0, f32::MAX, 255.0] {
        v.push(Float(f));
        v.push(Double(f as f64));
    }
    v.extend([Double(1e300), Double(0.1), Double(f64::MIN_POSITIVE), Double(f64::MAX), Double(9007199254740993.0)]);
    for (a, b) in [(0u64, 0u64), (1, 2), (u32::MAX as u64, 1), (1, u32::MAX as u64 + 1), (u64::MAX, 3), (1 << 31, 1), (7, u64::MAX)] {
        if let (Ok(a), Ok(b)) = (u32::try_from(a), u32::try_from(b)) {
            v.push(Rational(a, b));
        }
        v.push(RationalBig(a, b));
        v.push(SRational(a as i32, b as i32));
        v.push(SRationalBig(a as i64, b as i64));
        v.push(SRational(-(a as i16 as i32), b as i32));
    }
    for s in ["", "a", "abc", "a\0b", "é€", "1", "\u{10ffff}"] {
        v.push(Ascii(s.into()));
    }
    v.push(List(vec![]));
    v
}

/// One or two values of every kind, for lists.
fn few(n: usize) -> Vec<TagValue> {
    use TagValue::*;
    let all = vec![
        Byte(1), Short(300), SignedByte(-2), SignedShort(-300), Signed(-70000), SignedBig(-5_000_000_000), Unsigned(70000), UnsignedBig(5_000_000_000),
        Float(1.5), Double(-2.5), Rational(3, 4), RationalBig(3, 5_000_000_000), SRational(-3, 4), SRationalBig(-3, 5_000_000_000), Ascii("xy".into()), Ifd(9),
        IfdBig(1 << 40), List(vec![Byte(7)]), UnsignedBig(255), Unsigned(65535), Unsigned(65536), Short(256), SignedBig(7), Signed(32767), Ascii(String::new()), List(vec![]),
        UnsignedBig(u64::MAX), SignedBig(i64::MIN), IfdBig(4), Signed(-32769),
    ];
    all[..n.min(all.len())].to_vec()
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let bodies = vec![
        body("every kind of value, boundary numbers", move |ch| {
            let v = ch.pick(&scalars());
            ch.note(|| format!("{v:?}"));
            check(ch, &v)
        }),
        body("every 8- and 16-bit number of every kind", move |ch| {
            let x = ch.choose(1 << 16) as u16;
            use TagValue::*;
            for v in [Short(x), SignedShort(x as i16), Byte(x as u8), SignedByte(x as i8), Unsigned(x as u32), UnsignedBig(x as u64), Signed(x as i16 as i32), SignedBig(x as i16 as i64), Ifd(x as u32), IfdBig(x as u64)] {
                check(ch, &v)?;
            }
            Ok(())
        }),
        body("lists of one: every value", move |ch| {
            let v = ch.pick(&scalars());
            let v = TagValue::List(vec![v]);
            ch.note(|| format!("{v:?}"));
            check(ch, &v)
        }),
        body("lists of two: every pair of values", move |ch| {
            let s = scalars();
            let v = TagValue::List(vec![ch.pick(&s), ch.pick(&s)]);
            ch.note(|| format!("{v:?}"));
            check(ch, &v)
        }),
        body("longer lists of mixed kinds", move |ch| {
            let f = few(t.sel(26, 30));
            let n = 3 + ch.choose(t.sel(1, 2));
            let v = TagValue::List((0..n).map(|_| ch.pick(&f)).collect());
            ch.note(|| format!("{v:?}"));
            check(ch, &v)
        }),
        body("lists of many thousands", move |ch| {
            use TagValue::*;
            let n = ch.pick(&[255usize, 256, 257, 300, 1000, 4097, 65_535, 65_536, 65_537, 100_000]);
            // what the list holds, how it is converted
            let kinds: [(u8, To, TagValue); 13] = [
                (0, To::U8v, Short(256)),
                (1, To::U16v, Unsigned(65536)),
                (1, To::U32v, UnsignedBig(1 << 32)),
                (1, To::U64v, SignedBig(-1)),
                (2, To::U32v, UnsignedBig(1 << 32)),
                (2, To::U64v, Signed(-1)),
                (3, To::U64v, Signed(-1)),
                (4, To::I32v, SignedBig(1 << 31)),
                (4, To::I64v, UnsignedBig(u64::MAX)),
                (5, To::I64v, UnsignedBig(u64::MAX)),
                (6, To::F32v, Double(0.1)),
                (7, To::F64v, Rational(1, 2)),
                (8, To::U64v, Signed(-7)),
            ];
            let (kind, to, odd) = ch.pick(&kinds);
            let at = ch.pick(&[usize::MAX, 0, 1, 254, 255, 256, 257, 299, 65_535, 65_536, n - 1]);
            if at != usize::MAX && at >= n {
                return Ok(());
            }
            let num = |i: usize| crate::tiffw::mix(i as u64);
            let mut want = Vec::with_capacity(n);
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let x = num(i);
                let (a, b) = match kind {
                    0 => (Byte(x as u8), N::Int(x as u8 as i128)),
                    1 => (Short(x as u16), N::Int(x as u16 as i128)),
                    2 => (Unsigned(x as u32), N::Int(x as u32 as i128)),
                    3 => (UnsignedBig(x), N::Int(x as i128)),
                    4 => (Signed(x as i32), N::Int(x as i32 as i128)),
                    5 => (SignedBig(x as i64), N::Int(x as i64 as i128)),
                    6 => (Float(x as i16 as f32), N::F32((x as i16 as f32).to_bits())),
                    7 => (Double(x as i32 as f64), N::F64((x as i32 as f64).to_bits())),
                    _ => (IfdBig(x), N::Int(x as i128)),
                };
                v.push(if i == at { odd.clone() } else { a });
                want.push(b);
            }
            ch.note(|| format!("{n} values of kind {kind} as {to:?}, {odd:?} at {at}"));
            ch.step((n, kind, to, at));
            match (apply(List(v), to), at) {
                (Ok(g), usize::MAX) => {
                    let i = g.iter().zip(&want).position(|(a, b)| a != b);
                    ensure!(g == want, "{n} values of kind {kind} as {to:?} became {} values, the first wrong one is number {i:?}", g.len());
                    Ok(())
                }
                (Err(e), usize::MAX) => Err(format!("{n} values of kind {kind} as {to:?} are refused: {e}")),
                (Ok(_), _) => Err(format!("{odd:?} among {n} values of kind {kind} was accepted as {to:?}")),
                (Err(_), _) => Ok(()),
            }
        }),
        body("long lists of one kind with one odd element", move |ch| {
            use TagValue::*;
            let n = ch.pick(&[4usize, 16, 100]);
            let k = ch.choose(n);
            let kinds: [(TagValue, TagValue); 8] = [
                (Byte(1), Short(2)),
                (Short(1), Unsigned(65536)),
                (Unsigned(1), UnsignedBig(1 << 32)),
                (UnsignedBig(1), SignedBig(-1)),
                (Signed(1), SignedBig(1 << 31)),
                (SignedShort(1), SRational(5, 6)),
                (Float(1.0), Double(1.0)),
                (Double(1.0), Float(0.5)),
            ];
            let (a, b) = ch.pick(&kinds);
            let odd = ch.flag();
            // the elements can be told apart
            let v: Vec<TagValue> = (0..n)
                .map(|i| match (&a, i == k && odd) {
                    (_, true) => b.clone(),
                    (Byte(_), _) => Byte(i as u8),
                    (Short(_), _) => Short(i as u16),
                    (Unsigned(_), _) => Unsigned(i as u32),
                    (UnsignedBig(_), _) => UnsignedBig(i as u64),
                    (Signed(_), _) => Signed(-(i as i32)),
                    (SignedShort(_), _) => SignedShort(-(i as i16)),
                    (Float(_), _) => Float(i as f32),
                    _ => Double(i as f64),
                })
                .collect();
            let v = List(v);
            ch.note(|| format!("{v:?}"));
            check(ch, &v)
        }),
    ];
    (
        bodies,
        about(
            "all 19 conversions of every kind of value: every 8- and 16-bit number, all numbers around the powers of two of every width, floats, rationals, texts; all lists of one and two of these; all lists of three (thorough: four) of 26 (30) values of all kinds; lists of up to 100 with one odd element anywhere, of up to 100000 with one at 10 places",
            &["integers of the conversion's own signedness must be accepted when they fit (bytes only as bytes); a conversion between kinds is either exact or refused"],
        ),
    )
}
