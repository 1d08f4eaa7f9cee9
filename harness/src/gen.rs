//! Structured generators: byte strings, chunkings, compressor options.
use crate::src::{Rng, Src};
use divans::{BrotliCompressionSetting, DivansCompressorOptions, LiteralPredictionModeNibble, Speed, StrideSelection};

const WORDS: &[&str] = &[
    "the", " of ", "and ", "time", "left", "data", "compress", "Rust ", "\n", " ", ".", ", ", "0123", "<div>", "http://www.",
    "international", "government", "\"id\": ", "} , {", "return ", "void ", "=\"", "Zx", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}\u{8a9e}", "\u{1f600}",
];

/// Named data classes, for the evidence histogram.
pub const SEG_NAMES: [&str; 11] =
    ["run", "periodic", "random", "small-alphabet", "text", "self-copy", "utf8", "records", "counter", "sparse", "dictionary"];

pub struct Data {
    pub bytes: Vec<u8>,
    pub classes: u16,
}

/// A byte string of at most `max` bytes, made of segments of different statistical character.
pub fn data(s: &mut Src, max: usize) -> Data {
    let mut out: Vec<u8> = Vec::new();
    let mut classes = 0u16;
    let nseg = match s.weighted(&[6, 10, 8, 4, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 5,
        _ => 0,
    };
    for _ in 0..nseg {
        let room = max.saturating_sub(out.len());
        if room == 0 {
            break;
        }
        let kind = s.usize(SEG_NAMES.len());
        let len = s.logrange(0, room);
        classes |= 1 << kind;
        segment(s, kind, len, &mut out);
    }
    out.truncate(max);
    Data { bytes: out, classes }
}

/// Two to seven blocks of 64 KiB that differ in how much of them repeats, mostly with fresh bytes around each block boundary: brotli joins
/// blocks into metablocks by that, so a metablock, and a literal in it, can lie across the end of the encoder's ring buffer.
pub fn ring_data(s: &mut Src) -> Vec<u8> {
    let n = (2 + s.usize(5)) * 65536 + s.logrange(0, 65536);
    let fresh: Vec<u64> = (0..n / 65536 + 1).map(|_| *s.pick(&[5u64, 10, 2, 0, 60, 100])).collect();
    let around = s.logrange(0, 40);
    let unit = s.byte();
    let mut r = Rng::new(s.u64());
    (0..n)
        .map(|i| {
            let at = i & 0xffff;
            let edge = at < around || at >= 65536 - around;
            if edge || ((i % 100) as u64) < fresh[i >> 16] { r.next() as u8 } else { unit }
        })
        .collect()
}

/// Like `data` but with at least `min` bytes when possible.
pub fn data_min(s: &mut Src, min: usize, max: usize) -> Data {
    let mut d = data(s, max);
    if d.bytes.len() < min {
        let kind = s.usize(SEG_NAMES.len());
        let need = min - d.bytes.len();
        let extra = s.logrange(0, max - min);
        segment(s, kind, need + extra, &mut d.bytes);
        d.classes |= 1 << kind;
        d.bytes.truncate(max);
    }
    d
}

pub fn segment(s: &mut Src, kind: usize, len: usize, out: &mut Vec<u8>) {
    let mut r = Rng::new(s.u64());
    let target = out.len() + len;
    match kind {
        0 => {
            let b = s.byte();
            out.resize(target, b);
        }
        1 => {
            let p = s.logrange(1, 600);
            let unit: Vec<u8> = (0..p).map(|_| r.next() as u8).collect();
            for i in 0..len {
                out.push(unit[i % p]);
            }
        }
        2 => {
            for _ in 0..len {
                out.push(r.next() as u8);
            }
        }
        3 => {
            let n = s.range(1, 16) as u64;
            let base = s.byte();
            for _ in 0..len {
                out.push(base.wrapping_add(r.below(n) as u8));
            }
        }
        4 => {
            while out.len() < target {
                let w = WORDS[r.below(WORDS.len() as u64) as usize];
                out.extend_from_slice(w.as_bytes());
            }
        }
        5 => {
            if out.is_empty() {
                out.extend_from_slice(b"seed material");
            }
            while out.len() < target {
                let n = out.len();
                let d = 1 + r.below(n as u64) as usize;
                let l = (1 + r.below(300) as usize).min(target - n);
                for i in 0..l {
                    let b = out[n + i - d];
                    out.push(b);
                }
                if r.below(3) == 0 {
                    out.push(r.next() as u8);
                }
            }
        }
        6 => {
            while out.len() < target {
                let c = match r.below(4) {
                    0 => r.below(0x80) as u32,
                    1 => 0x80 + r.below(0x700) as u32,
                    2 => 0x800 + r.below(0x4000) as u32,
                    _ => 0x1f300 + r.below(0x400) as u32,
                };
                let c = char::from_u32(c).unwrap_or('?');
                let mut b = [0u8; 4];
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
        7 => {
            let stride = s.range(1, 9);
            let mut rec: Vec<u8> = (0..stride).map(|_| r.next() as u8).collect();
            while out.len() < target {
                for (i, x) in rec.iter_mut().enumerate() {
                    if r.below(1 + i as u64 * 2) == 0 {
                        *x = x.wrapping_add(r.below(4) as u8);
                    }
                }
                out.extend_from_slice(&rec);
            }
        }
        8 => {
            let step = s.byte();
            let mut b = 0u8;
            for _ in 0..len {
                out.push(b);
                b = b.wrapping_add(step);
            }
        }
        9 => {
            for _ in 0..len {
                out.push(if r.below(40) == 0 { r.next() as u8 } else { 0 });
            }
        }
        _ => {
            // words of the brotli static dictionary, some transformed
            while out.len() < target {
                let l = 4 + r.below(21) as usize;
                let bits = brotli::dictionary::kBrotliDictionarySizeBitsByLength[l];
                if bits == 0 {
                    continue;
                }
                let id = r.below(1 << bits) as usize;
                let off = brotli::dictionary::kBrotliDictionaryOffsetsByLength[l] as usize + id * l;
                let w = &brotli::dictionary::kBrotliDictionary[off..off + l];
                let mut t = [0u8; 64];
                let tr = if r.below(2) == 0 { 0 } else { r.below(121) as i32 };
                let n = brotli::TransformDictionaryWord(&mut t, w, l as i32, tr) as usize;
                out.extend_from_slice(&t[..n]);
                if r.below(3) == 0 {
                    out.push(b' ');
                }
            }
        }
    }
    out.truncate(target);
}

/// Cyclic list of chunk sizes.
#[derive(Clone, Debug)]
pub struct Pat(pub Vec<usize>);
impl Pat {
    pub fn at(&self, i: usize) -> usize {
        self.0[i % self.0.len()]
    }
    pub fn big() -> Pat {
        Pat(vec![1 << 16])
    }
    pub fn of(n: usize) -> Pat {
        Pat(vec![n])
    }
}

/// Chunk-size pattern.  At least one size is nonzero; the mean size is at least total/limit so that
/// a case needs at most about `limit` calls.
pub fn pat(s: &mut Src, total: usize, limit: usize) -> Pat {
    let floor = total / limit.max(1);
    let mut v = match s.weighted(&[5, 4, 6, 4]) {
        0 => vec![1 << 16],
        1 => {
            let n = *s.pick(&[1usize, 2, 3, 7, 15, 16, 17, 31, 64, 255, 256, 1023, 4096, 65535, 65536, 65537]);
            vec![n]
        }
        2 => {
            let k = s.range(1, 6);
            (0..k).map(|_| s.logrange(0, 5000)).collect()
        }
        _ => {
            let k = s.range(1, 6);
            (0..k).map(|_| s.logrange(0, 40)).collect()
        }
    };
    let sum: usize = v.iter().sum();
    if sum == 0 {
        v.push(1);
    }
    let need = floor * v.len();
    let sum: usize = v.iter().sum();
    if sum < need {
        v.push(need - sum + 1);
    }
    Pat(v)
}

pub const STRIDES: [StrideSelection; 10] = [
    StrideSelection::UseBrotliRec,
    StrideSelection::PriorDisabled,
    StrideSelection::Stride1,
    StrideSelection::Stride2,
    StrideSelection::Stride3,
    StrideSelection::Stride4,
    StrideSelection::Stride5,
    StrideSelection::Stride6,
    StrideSelection::Stride7,
    StrideSelection::Stride8,
];

pub fn speed(s: &mut Src) -> Speed {
    match s.weighted(&[4, 3, 3]) {
        0 => *s.pick(&Speed::ENCODER_DEFAULT_PALETTE),
        1 => *s.pick(&[Speed::GEOLOGIC, Speed::GLACIAL, Speed::MUD, Speed::SLOW, Speed::MED, Speed::FAST, Speed::PLANE, Speed::ROCKET]),
        _ => {
            let inc = s.logrange(0, 16383);
            let lim = s.logrange(0, 16384);
            Speed::new(inc as i16, lim as i16)
        }
    }
}

pub struct OptCfg {
    pub opts: DivansCompressorOptions,
    /// number of fields that differ from the default
    pub touched: u32,
    pub desc: String,
}

/// `window_lo..=window_hi` is the requested range; `max_q` bounds brotli quality (10 and 11 are slow).
pub fn options(s: &mut Src, window_lo: i32, window_hi: i32, max_q: u16, use_ir: bool) -> OptCfg {
    let mut o = DivansCompressorOptions::default();
    let mut touched = 0;
    let w = window_lo + s.below((window_hi - window_lo + 1) as u64) as i32;
    o.window_size = Some(w);
    o.lgblock = match s.weighted(&[3, 3, 2]) {
        0 => None,
        1 => Some(16 + s.below(3) as u32),
        _ => Some(s.below(27) as u32),
    };
    o.quality = Some(s.below(max_q as u64 + 1) as u16);
    if s.chance(1, 4) {
        o.q9_5 = true;
        touched += 1;
    }
    if s.chance(1, 3) {
        o.dynamic_context_mixing = *s.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7)]);
        touched += 1;
    }
    if s.chance(1, 3) {
        o.prior_depth = *s.pick(&[Some(0), Some(1), Some(2), Some(3), Some(4), Some(255)]);
        touched += 1;
    }
    if s.chance(1, 3) {
        o.use_context_map = false;
        touched += 1;
    }
    if s.chance(1, 2) {
        o.force_stride_value = *s.pick(&STRIDES);
        touched += 1;
    }
    if s.chance(1, 3) {
        o.literal_adaptation = Some([speed(s), speed(s), speed(s), speed(s)]);
        touched += 1;
    }
    if s.chance(1, 3) {
        o.force_literal_context_mode = Some(LiteralPredictionModeNibble(s.below(4) as u8));
        touched += 1;
    }
    if s.chance(1, 3) {
        o.stride_detection_quality = Some(s.below(3) as u8);
        touched += 1;
    }
    if s.chance(1, 4) {
        o.speed_detection_quality = Some(s.below(4) as u8);
        touched += 1;
    }
    if s.chance(1, 3) {
        o.prior_bitmask_detection = *s.pick(&[0u8, 1, 2, 255]);
        touched += 1;
    }
    if s.chance(1, 5) {
        o.brotli_literal_byte_score = Some(*s.pick(&[0u32, 1, 40, 135, 340, 540, 1000]));
        touched += 1;
    }
    if use_ir && s.chance(1, 3) {
        o.divans_ir_optimizer = *s.pick(&[1u8, 2, 255]);
        touched += 1;
    }
    if s.chance(1, 8) {
        o.use_brotli = BrotliCompressionSetting::UseBrotliBitstream;
        touched += 1;
    }
    OptCfg { desc: format!("{:?}", o), opts: o, touched }
}
