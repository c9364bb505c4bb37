//! Reference encoders for the compressions the library decodes. They are independent of the
//! library: other crates, or written here from the specification.
use std::io::Write;

pub fn deflate(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(6));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn lzw(data: &[u8]) -> Vec<u8> {
    weezl::encode::Encoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8)
        .encode(data)
        .unwrap()
}

pub fn zstd(data: &[u8]) -> Vec<u8> {
    zstd::encode_all(data, 3).unwrap()
}

/// Streams of liblzma: the bytes `(i * i * 7 + i / 3) as u8` for `i` in 0..64 with every check and, as
/// libtiff writes them, a delta filter of this distance (0: none).
pub const XZ: [(usize, &str); 24] = [
    (0, "fd377a585a000000ff12d9410200210116000000742fe5a301003f00071c4071b0fe59c23abf52f4a3602c05ece2e5f616437ec81f84f87908a6510ad2a78a7c7b88a4cd044a9dfe6eeb7610b76c3001e0cec9d2ea0f4284d3309c0000015040efa9e1ec06729e7a010000000000595a"),
    (1, "fd377a585a000000ff12d94102010301002101167920c4ee01003f00071524313f4e5b69788593a2afbdccd9e7f60311202d3b4a576574818f9eabb9c8d5e3f2ff0d1c2937465361707d8b9aa7b5c4d1dfeefb09182533424f5d6c0000015040efa9e1ec06729e7a010000000000595a"),
    (2, "fd377a585a000000ff12d94102010301012101161c47785601003f00071c3955708da9c4e1fd1835516c89a5c0ddf914314d6885a1bcd9f5102d4964819db8d5f10c2945607d99b4d1ed0825415c7995b0cde904213d587591acc90000015040efa9e1ec06729e7a010000000000595a"),
    (4, "fd377a585a000000ff12d9410201030103210116978f71fc01003f00071c4071a9e219518ac1f93269a1da114982b9f12a6199d209417ab1e9225991ca013972a9e11a5189c2f9316aa1d9124981baf1296299d10a4179b2e9215a0000015040efa9e1ec06729e7a010000000000595a"),
    (8, "fd377a585a000000ff12d9410201030107210116c018137301003f00071c4071b0fe59c233a31283f362d343b223930273e352c333a21383f263d342b323920373e253c332a31382f363d243b322930372e353c233a31283f362d30000015040efa9e1ec06729e7a010000000000595a"),
    (3, "fd377a585a000000ff12d9410201030102210116f2e8cd4401003f00071c406a94bee8123c6690bae40e38628cb6e00a345e88b2dc06305a84aed8022c5680aad4fe28527ca6d0fa244e78a2ccf6204a749ec8f21c46709ac4ee180000015040efa9e1ec06729e7a010000000000595a"),
    (0, "fd377a585a0000016922de360200210116000000742fe5a301003f00071c4071b0fe59c23abf52f4a3602c05ece2e5f616437ec81f84f87908a6510ad2a78a7c7b88a4cd044a9dfe6eeb7610b76c3001e0cec9d2ea0f4284d3309c008885005100015440eb6c8d889042990d010000000001595a"),
    (1, "fd377a585a0000016922de3602010301002101167920c4ee01003f00071524313f4e5b69788593a2afbdccd9e7f60311202d3b4a576574818f9eabb9c8d5e3f2ff0d1c2937465361707d8b9aa7b5c4d1dfeefb09182533424f5d6c008885005100015440eb6c8d889042990d010000000001595a"),
    (2, "fd377a585a0000016922de3602010301012101161c47785601003f00071c3955708da9c4e1fd1835516c89a5c0ddf914314d6885a1bcd9f5102d4964819db8d5f10c2945607d99b4d1ed0825415c7995b0cde904213d587591acc9008885005100015440eb6c8d889042990d010000000001595a"),
    (4, "fd377a585a0000016922de360201030103210116978f71fc01003f00071c4071a9e219518ac1f93269a1da114982b9f12a6199d209417ab1e9225991ca013972a9e11a5189c2f9316aa1d9124981baf1296299d10a4179b2e9215a008885005100015440eb6c8d889042990d010000000001595a"),
    (8, "fd377a585a0000016922de360201030107210116c018137301003f00071c4071b0fe59c233a31283f362d343b223930273e352c333a21383f263d342b323920373e253c332a31382f363d243b322930372e353c233a31283f362d3008885005100015440eb6c8d889042990d010000000001595a"),
    (3, "fd377a585a0000016922de360201030102210116f2e8cd4401003f00071c406a94bee8123c6690bae40e38628cb6e00a345e88b2dc06305a84aed8022c5680aad4fe28527ca6d0fa244e78a2ccf6204a749ec8f21c46709ac4ee18008885005100015440eb6c8d889042990d010000000001595a"),
    (0, "fd377a585a000004e6d6b4460200210116000000742fe5a301003f00071c4071b0fe59c23abf52f4a3602c05ece2e5f616437ec81f84f87908a6510ad2a78a7c7b88a4cd044a9dfe6eeb7610b76c3001e0cec9d2ea0f4284d3309c00b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (1, "fd377a585a000004e6d6b44602010301002101167920c4ee01003f00071524313f4e5b69788593a2afbdccd9e7f60311202d3b4a576574818f9eabb9c8d5e3f2ff0d1c2937465361707d8b9aa7b5c4d1dfeefb09182533424f5d6c00b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (2, "fd377a585a000004e6d6b44602010301012101161c47785601003f00071c3955708da9c4e1fd1835516c89a5c0ddf914314d6885a1bcd9f5102d4964819db8d5f10c2945607d99b4d1ed0825415c7995b0cde904213d587591acc900b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (4, "fd377a585a000004e6d6b4460201030103210116978f71fc01003f00071c4071a9e219518ac1f93269a1da114982b9f12a6199d209417ab1e9225991ca013972a9e11a5189c2f9316aa1d9124981baf1296299d10a4179b2e9215a00b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (8, "fd377a585a000004e6d6b4460201030107210116c018137301003f00071c4071b0fe59c233a31283f362d343b223930273e352c333a21383f263d342b323920373e253c332a31382f363d243b322930372e353c233a31283f362d300b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (3, "fd377a585a000004e6d6b4460201030102210116f2e8cd4401003f00071c406a94bee8123c6690bae40e38628cb6e00a345e88b2dc06305a84aed8022c5680aad4fe28527ca6d0fa244e78a2ccf6204a749ec8f21c46709ac4ee1800b2e3bf64c9c11ec700015840e72338241fb6f37d010000000004595a"),
    (0, "fd377a585a00000ae1fb0ca10200210116000000742fe5a301003f00071c4071b0fe59c23abf52f4a3602c05ece2e5f616437ec81f84f87908a6510ad2a78a7c7b88a4cd044a9dfe6eeb7610b76c3001e0cec9d2ea0f4284d3309c0053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
    (1, "fd377a585a00000ae1fb0ca102010301002101167920c4ee01003f00071524313f4e5b69788593a2afbdccd9e7f60311202d3b4a576574818f9eabb9c8d5e3f2ff0d1c2937465361707d8b9aa7b5c4d1dfeefb09182533424f5d6c0053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
    (2, "fd377a585a00000ae1fb0ca102010301012101161c47785601003f00071c3955708da9c4e1fd1835516c89a5c0ddf914314d6885a1bcd9f5102d4964819db8d5f10c2945607d99b4d1ed0825415c7995b0cde904213d587591acc90053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
    (4, "fd377a585a00000ae1fb0ca10201030103210116978f71fc01003f00071c4071a9e219518ac1f93269a1da114982b9f12a6199d209417ab1e9225991ca013972a9e11a5189c2f9316aa1d9124981baf1296299d10a4179b2e9215a0053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
    (8, "fd377a585a00000ae1fb0ca10201030107210116c018137301003f00071c4071b0fe59c233a31283f362d343b223930273e352c333a21383f263d342b323920373e253c332a31382f363d243b322930372e353c233a31283f362d30053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
    (3, "fd377a585a00000ae1fb0ca10201030102210116f2e8cd4401003f00071c406a94bee8123c6690bae40e38628cb6e00a345e88b2dc06305a84aed8022c5680aad4fe28527ca6d0fa244e78a2ccf6204a749ec8f21c46709ac4ee180053bd6574000e44886bec8c027d373b9f33904ae55d54172d0290675775c2a08b000170404d8d6579189b4b9a01000000000a595a"),
];

/// With a check, a delta filter (distance 0: none), a preset and a block size (0: one block) of choice.
pub fn xz_as(data: &[u8], preset: u32, check: usize, delta: u32, block: u64) -> Vec<u8> {
    use lzma_rust2::{CheckType, FilterType, XzOptions, XzWriter};
    let mut o = XzOptions::with_preset(preset);
    o.set_check_sum_type([CheckType::None, CheckType::Crc32, CheckType::Crc64, CheckType::Sha256][check]);
    if delta > 0 {
        o.prepend_pre_filter(FilterType::Delta, delta);
    }
    if block > 0 {
        o.set_block_size(std::num::NonZeroU64::new(block));
    }
    let mut w = XzWriter::new(Vec::new(), o).unwrap();
    w.write_all(data).unwrap();
    w.finish().unwrap()
}

pub fn xz(data: &[u8]) -> Vec<u8> {
    let mut w =
        lzma_rust2::XzWriter::new(Vec::new(), lzma_rust2::XzOptions::with_preset(0)).unwrap();
    w.write_all(data).unwrap();
    w.finish().unwrap()
}

pub fn webp(data: &[u8], w: u32, h: u32, alpha: bool) -> Vec<u8> {
    let e = if alpha {
        webp::Encoder::from_rgba(data, w, h)
    } else {
        webp::Encoder::from_rgb(data, w, h)
    };
    e.encode_lossless().to_vec()
}

/// The same with one flush point after each part.
pub fn deflate_parts(parts: &[&[u8]]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(6));
    for p in parts {
        e.write_all(p).unwrap();
        e.flush().unwrap();
    }
    e.finish().unwrap()
}

/// A frame per part, each followed by a skippable frame if `skip`.
pub fn zstd_parts(parts: &[&[u8]], skip: bool) -> Vec<u8> {
    let mut out = vec![];
    for p in parts {
        out.extend(zstd(p));
        if skip {
            out.extend([0x50, 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 1, 2, 3]);
        }
    }
    out
}

/// Literals only, with a clear code before each part.
pub fn lzw_parts(parts: &[&[u8]]) -> Vec<u8> {
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    let mut put = |code: u32| {
        acc = acc << 9 | code;
        n += 9;
        while n >= 8 {
            out.push((acc >> (n - 8)) as u8);
            n -= 8;
        }
        acc &= (1 << n) - 1;
        n
    };
    let mut left = 0;
    for p in parts {
        for q in p.chunks(200) {
            put(256);
            q.iter().for_each(|b| {
                put(*b as u32);
            });
        }
    }
    left += put(257);
    if left > 0 {
        out.push((acc << (8 - left)) as u8);
    }
    out
}

/// LERC blob of native-endian samples. `inner`: 0 none, 1 deflate, 2 zstd.
pub fn lerc(data: &[u8], sf: u16, bits: u16, w: usize, h: usize, spp: usize, inner: u32) -> Vec<u8> {
    lerc_masked(data, None, sf, bits, w, h, spp, inner)
}

/// The same with a mask of the valid pixels.
#[allow(clippy::too_many_arguments)]
pub fn lerc_masked(data: &[u8], mask: Option<&[u8]>, sf: u16, bits: u16, w: usize, h: usize, spp: usize, inner: u32) -> Vec<u8> {
    macro_rules! enc {
        ($t:ty) => {{
            let v: Vec<$t> = data
                .chunks_exact(std::mem::size_of::<$t>())
                .map(|c| <$t>::from_ne_bytes(c.try_into().unwrap()))
                .collect();
            lerc::encode(&v, mask, w, h, spp, 1, mask.is_some() as usize, 0.0).expect("lerc")
        }};
    }
    let blob = match (sf, bits) {
        (1, 8) => enc!(u8),
        (1, 16) => enc!(u16),
        (1, 32) => enc!(u32),
        (2, 8) => enc!(i8),
        (2, 16) => enc!(i16),
        (2, 32) => enc!(i32),
        (3, 32) => enc!(f32),
        (3, 64) => enc!(f64),
        _ => panic!("lerc type"),
    };
    match inner {
        1 => deflate(&blob),
        2 => zstd(&blob),
        _ => blob,
    }
}

// ------------------------------------------------------------------------------------ JPEG ----

fn seg(out: &mut Vec<u8>, marker: u8, body: &[u8]) {
    out.extend([0xff, marker]);
    out.extend((body.len() as u16 + 2).to_be_bytes());
    out.extend(body);
}

fn jpeg_tables_body(out: &mut Vec<u8>) {
    // quantisation table 0: all eights, so that the DC coefficient is the (level-shifted) pixel
    let mut q = vec![0u8];
    q.extend([8u8; 64]);
    seg(out, 0xdb, &q);
    // DC table 0: twelve 4-bit codes for the categories 0..=11
    let mut d = vec![0x00u8];
    let mut counts = [0u8; 16];
    counts[3] = 12;
    d.extend(counts);
    d.extend(0u8..12);
    seg(out, 0xc4, &d);
    // AC table 0: one 1-bit code, end of block
    let mut a = vec![0x10u8];
    let mut counts = [0u8; 16];
    counts[0] = 1;
    a.extend(counts);
    a.push(0);
    seg(out, 0xc4, &a);
}

/// The JPEGTables tag: an abbreviated stream of tables only.
pub fn jpeg_tables() -> Vec<u8> {
    let mut o = vec![0xff, 0xd8];
    jpeg_tables_body(&mut o);
    o.extend([0xff, 0xd9]);
    o
}

/// A baseline JPEG of constant 8x8 blocks: `px(component, block_x, block_y)`.
pub fn jpeg(w: u16, h: u16, comps: u8, tables: bool, px: impl Fn(u8, u32, u32) -> u8) -> Vec<u8> {
    jpeg_sampled(w, h, &vec![(1, 1); comps as usize], tables, px)
}

/// The same with a horizontal and vertical sampling factor for each component, whose blocks are
/// counted in its own resolution.
pub fn jpeg_sampled(w: u16, h: u16, factors: &[(u32, u32)], tables: bool, px: impl Fn(u8, u32, u32) -> u8) -> Vec<u8> {
    let comps = factors.len() as u8;
    let mut o = vec![0xff, 0xd8];
    if tables {
        jpeg_tables_body(&mut o);
    }
    let mut f = vec![8u8];
    f.extend(h.to_be_bytes());
    f.extend(w.to_be_bytes());
    f.push(comps);
    for c in 0..comps {
        let (fh, fv) = factors[c as usize];
        f.extend([c + 1, (fh << 4 | fv) as u8, 0]);
    }
    seg(&mut o, 0xc0, &f);
    let mut s = vec![comps];
    for c in 0..comps {
        s.extend([c + 1, 0x00]);
    }
    s.extend([0, 63, 0]);
    seg(&mut o, 0xda, &s);
    let (mut acc, mut nbits) = (0u32, 0u32);
    let mut put = |o: &mut Vec<u8>, v: u32, n: u32| {
        for i in (0..n).rev() {
            acc = acc << 1 | (v >> i & 1);
            nbits += 1;
            if nbits == 8 {
                o.push(acc as u8);
                if acc as u8 == 0xff {
                    o.push(0);
                }
                acc = 0;
                nbits = 0;
            }
        }
    };
    let mut last = [0i32; 4];
    // one component alone is not interleaved: its MCU is one block
    let (hm, vm) = if comps == 1 { (1, 1) } else { (factors.iter().map(|f| f.0).max().unwrap(), factors.iter().map(|f| f.1).max().unwrap()) };
    let mut blocks = vec![];
    for my in 0..(h as u32).div_ceil(8 * vm) {
        for mx in 0..(w as u32).div_ceil(8 * hm) {
            for c in 0..comps {
                let (fh, fv) = if comps == 1 { (1, 1) } else { factors[c as usize] };
                for y in 0..fv {
                    blocks.extend((0..fh).map(|x| (c, mx * fh + x, my * fv + y)));
                }
            }
        }
    }
    for (c, bx, by) in blocks {
        let v = px(c, bx, by) as i32 - 128;
        let d = v - last[c as usize];
        last[c as usize] = v;
        let cat = 32 - d.unsigned_abs().leading_zeros();
        put(&mut o, cat, 4);
        if cat > 0 {
            let bits = if d > 0 { d } else { d + (1 << cat) - 1 };
            put(&mut o, bits as u32, cat);
        }
        put(&mut o, 0, 1);
    }
    put(&mut o, 0x7f, 7); // pad with ones; a full pad byte is harmless
    o.extend([0xff, 0xd9]);
    o
}

// -------------------------------------------------------------------------------- JPEG 2000 ----

struct Sink {
    buf: Vec<u8>,
    pos: usize,
}
unsafe extern "C" fn sink_write(
    b: *mut std::os::raw::c_void,
    n: openjpeg_sys::OPJ_SIZE_T,
    u: *mut std::os::raw::c_void,
) -> openjpeg_sys::OPJ_SIZE_T {
    let s = &mut *(u as *mut Sink);
    let n = n as usize;
    if s.buf.len() < s.pos + n {
        s.buf.resize(s.pos + n, 0);
    }
    std::ptr::copy_nonoverlapping(b as *const u8, s.buf[s.pos..].as_mut_ptr(), n);
    s.pos += n;
    n as _
}
unsafe extern "C" fn sink_skip(
    n: openjpeg_sys::OPJ_OFF_T,
    u: *mut std::os::raw::c_void,
) -> openjpeg_sys::OPJ_OFF_T {
    let s = &mut *(u as *mut Sink);
    s.pos = (s.pos as i64 + n) as usize;
    n
}
unsafe extern "C" fn sink_seek(
    n: openjpeg_sys::OPJ_OFF_T,
    u: *mut std::os::raw::c_void,
) -> openjpeg_sys::OPJ_BOOL {
    (*(u as *mut Sink)).pos = n as usize;
    1
}

/// Lossless JPEG 2000 codestream of pixel-interleaved samples.
pub fn j2k(w: u32, h: u32, spp: u32, bits: u32, at: impl Fn(u32, u32, u32) -> i32) -> Vec<u8> {
    j2k_signed(w, h, spp, bits, false, at)
}

/// The same with a choice of signed samples.
pub fn j2k_signed(w: u32, h: u32, spp: u32, bits: u32, signed: bool, at: impl Fn(u32, u32, u32) -> i32) -> Vec<u8> {
    use openjpeg_sys::*;
    unsafe {
        let mut cp: Vec<opj_image_cmptparm_t> = (0..spp)
            .map(|_| opj_image_cmptparm_t {
                dx: 1,
                dy: 1,
                w,
                h,
                x0: 0,
                y0: 0,
                prec: bits,
                bpp: bits,
                sgnd: signed as u32,
            })
            .collect();
        let clr = if spp < 3 {
            OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY
        } else {
            OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB
        };
        let img = opj_image_create(spp, cp.as_mut_ptr(), clr);
        assert!(!img.is_null());
        (*img).x0 = 0;
        (*img).y0 = 0;
        (*img).x1 = w;
        (*img).y1 = h;
        for c in 0..spp {
            let comp = &mut *(*img).comps.add(c as usize);
            if spp == 2 && c == 1 || spp == 4 && c == 3 {
                comp.alpha = 1;
            }
            for y in 0..h {
                for x in 0..w {
                    *comp.data.add((y * w + x) as usize) = at(c, y, x);
                }
            }
        }
        let mut p: opj_cparameters_t = std::mem::zeroed();
        opj_set_default_encoder_parameters(&mut p);
        p.tcp_numlayers = 1;
        p.tcp_rates[0] = 0.0;
        p.cp_disto_alloc = 1;
        p.numresolution = 1;
        let codec = opj_create_compress(OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        assert!(opj_setup_encoder(codec, &mut p, img) != 0);
        let mut sink = Box::new(Sink {
            buf: vec![],
            pos: 0,
        });
        let st = opj_stream_create(1 << 16, 0);
        opj_stream_set_write_function(st, Some(sink_write));
        opj_stream_set_skip_function(st, Some(sink_skip));
        opj_stream_set_seek_function(st, Some(sink_seek));
        opj_stream_set_user_data(st, &mut *sink as *mut Sink as *mut _, None);
        assert!(opj_start_compress(codec, img, st) != 0);
        assert!(opj_encode(codec, st) != 0);
        assert!(opj_end_compress(codec, st) != 0);
        opj_stream_destroy(st);
        opj_destroy_codec(codec);
        opj_image_destroy(img);
        std::mem::take(&mut sink.buf)
    }
}

/// Bytes a decoder has to allocate because the stream itself announces an image of that size.
pub fn announced(comp: u16, data: &[u8], inner: Option<u32>) -> u64 {
    use std::io::Read;
    let be = |i: usize, n: usize| data.get(i..i + n).map_or(0, |b| b.iter().fold(0u64, |a, x| a << 8 | *x as u64));
    match comp {
        34887 => {
            let mut v = Vec::new();
            let blob: &[u8] = match inner {
                Some(1) => {
                    let _ = flate2::read::ZlibDecoder::new(data).take(1 << 20).read_to_end(&mut v);
                    &v
                }
                Some(2) => {
                    if let Ok(d) = zstd::Decoder::new(data) {
                        let _ = d.take(1 << 20).read_to_end(&mut v);
                    }
                    &v
                }
                _ => data,
            };
            lerc::get_blob_info(blob).map_or(0, |i| {
                [i.width as u64, i.height as u64, i.depth as u64, i.bands as u64, 8].iter().fold(1u64, |p, k| p.saturating_mul((*k).max(1)))
            })
        }
        7 => (0..data.len().saturating_sub(9))
            .filter(|i| data[*i] == 0xff && matches!(data[*i + 1], 0xc0..=0xcf))
            .map(|i| be(i + 5, 2) * be(i + 7, 2) * be(i + 9, 1).max(1) * 4)
            .max()
            .unwrap_or(0),
        50001 => webp::BitstreamFeatures::new(data).map_or(0, |f| f.width() as u64 * f.height() as u64 * 16),
        34712 => (0..data.len().saturating_sub(40))
            .filter(|i| data[*i] == 0xff && data[*i + 1] == 0x51)
            .map(|i| be(i + 6, 4).saturating_mul(be(i + 10, 4)).saturating_mul(be(i + 38, 2).max(1) * 8))
            .max()
            .unwrap_or(0),
        _ => 0,
    }
}
