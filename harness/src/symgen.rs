//! Streams chosen symbol by symbol: a frozen copy of the decoder is run over chosen nibbles instead of coded bytes, and
//! the nibbles are then coded the way the format prescribes.  Every state the decoder can reach is one such choice away.
use crate::muxed;
use crate::src::{Rng, Src};
use divans_frozen::generate::{self as g, Field};

/// One sub-stream of the entropy code, from probability ranges: chunks of 65536 symbols, two interleaved 64-bit states,
/// 15-bit probabilities, 32-bit renormalisation.
pub fn code(log: &[(u16, u16)]) -> Vec<u8> {
    code_chunks(log, &mut |_| None).concat()
}

/// The same, chunk by chunk. An encoder starts each chunk (in coding order: ends it) with both states at the lower bound;
/// `low` may give the chunk's last symbol a state below it, for which the decoder then owes a refill that it fetches in
/// the next chunk, into that chunk's second state. The symbol before that may be left in such a state as well.
pub fn code_chunks(log: &[(u16, u16)], low: &mut dyn FnMut(usize) -> Option<u64>) -> Vec<Vec<u8>> {
    let mut all = vec![];
    let mut owed = None;
    let n = log.chunks(65536).count();
    for (i, chunk) in log.chunks(65536).enumerate() {
        let (mut a, mut b) = (1u64 << 31, 1u64 << 31);
        let mut owes = None;
        if i + 1 < n {
            if let Some(v) = low(i) {
                let f = chunk[chunk.len() - 1].1 as u64;
                a = (f << 16) + v % ((1u64 << 31) - (f << 16));
                owes = Some(v >> 32);
                if v >> 20 & 1 == 1 {
                    // the symbol before it too: its refill falls due together with the new chunk, which replaces it
                    let f = chunk[chunk.len() - 2].1 as u64;
                    b = (f << 16) + (v >> 7) % ((1u64 << 31) - (f << 16));
                }
            }
        }
        let mut words: Vec<u32> = vec![];
        for (start, freq) in chunk.iter().rev() {
            let f = *freq as u64;
            let mut x = a;
            if x >= ((1u64 << 31 >> 15) << 32) * f {
                words.push(x as u32);
                x >>= 32;
            }
            let y = ((x / f) << 15) + x % f + *start as u64;
            a = b;
            b = y;
        }
        std::mem::swap(&mut a, &mut b);
        if let Some(v) = owed {
            words.push(b as u32);
            b = b >> 32 | v << 32;
        }
        let mut out = vec![];
        out.extend_from_slice(&a.to_le_bytes());
        out.extend_from_slice(&b.to_le_bytes());
        for w in words.iter().rev() {
            out.extend_from_slice(&w.to_le_bytes());
        }
        all.push(out);
        owed = owes;
    }
    all
}

pub struct Boundary {
    pub stream: Vec<u8>,
    pub out: Vec<u8>,
    /// where in the stream the first chunk of one sub-stream ends, all of the other one lying before it
    pub at: usize,
    pub desc: String,
}

/// A stream with more than one entropy-code chunk in a sub-stream, where the chunks may end in states no encoder leaves.
pub fn boundary(s: &mut Src) -> Option<Boundary> {
    let kind = s.weighted(&[4, 2, 2, 1]);
    let window = 16 + s.below(4) as u8;
    let over = s.usize(400);
    // one literal: its length field
    let len = 32768 + 8 + over;
    let m = len - 15;
    let bits = 64 - (m as u64).leading_zeros() as u8;
    let mut shift = (bits - 1 + 3) / 4 * 4;
    let rest = m ^ 1 << (bits - 1);
    // in how many symbols of the command sub-stream to end
    let mut budget = 65536 + 20 + over;
    let mut begun = false;
    let mut map = [0u32; 2];
    let hi = *s.pick(&[16u64, 16, 3]);
    let mut r = Rng::new(s.u64());
    let o = g::generate(
        window,
        80_000,
        Box::new(move |f, _q: &mut dyn FnMut(u8) -> u16| {
            if f != Field::LitByte {
                budget = budget.saturating_sub(1);
            }
            Some(match f {
                Field::Command => {
                    map = [0, 0];
                    let first = !begun;
                    begun = true;
                    match kind {
                        0 if first => 3,
                        2 if first => 3,
                        0 => 15,
                        _ if budget == 0 => 15,
                        1 => 3,
                        2 => 1,
                        _ => 7,
                    }
                }
                Field::LitSmall if kind == 0 => 14,
                Field::LitSmall if kind == 2 => 13,
                Field::LitSmall => r.below(3) as u8,
                Field::LitFirst => bits.min(15),
                Field::LitBig => bits - 15,
                Field::LitMantissa => {
                    shift -= 4;
                    (rest >> shift & 15) as u8
                }
                Field::CopySmall => 2 + r.below(4) as u8,
                Field::DistMnemonic => r.below(4) as u8,
                Field::PmMode => r.below(4) as u8,
                Field::PmDynamic => r.below(2) as u8,
                Field::MapMnemonic(d) => {
                    let n = &mut map[d as usize];
                    *n += 1;
                    if *n > if d { 1000 } else { 16000 } {
                        14
                    } else {
                        *[0, 1, 2, 13, 15].get(r.below(5) as usize).unwrap()
                    }
                }
                Field::Mix => 0,
                _ => r.below(hi) as u8,
            })
        }),
    );
    let which = if o.log[1].len() > 65536 && (kind == 0 || s.chance(1, 2)) { 1 } else { 0 };
    if !o.complete || o.log[which].len() <= 65536 {
        return None;
    }
    let low = s.chance(3, 4);
    let mut v = s.u64();
    let mut chunks = |k: usize| {
        code_chunks(&o.log[k], &mut |_| {
            v = v.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if low { Some(v) } else { None }
        })
    };
    let subs = [chunks(0), chunks(1)];
    let first = subs[which][0].len();
    let sub = [subs[0].concat(), subs[1].concat()];
    let other = sub[1 - which].len();
    let mut left = other;
    let body = muxed::remux(&sub, &mut || {
        if left > 0 {
            left -= left.min(65536);
            (1 - which, 65536)
        } else {
            (which, 65536)
        }
    });
    let mut h = vec![0xff, 0xe5, 0x8c, 0x9f, 0, window];
    h.resize(16, 0);
    let at = 16 + other + 3 * ((other + 65535) / 65536) + first + 3 * ((first + 65535) / 65536);
    Some(Boundary {
        stream: muxed::wrap(&h, &body),
        at,
        desc: format!(
            "{}: {} and {} symbols, {} ends a chunk at {}{}, {} bytes out, window {}",
            ["one literal", "short literals", "copies", "context maps"][kind],
            o.log[0].len(),
            o.log[1].len(),
            ["the command sub-stream", "the literal sub-stream"][which],
            at,
            if low { " in an odd state" } else { "" },
            o.out.len(),
            window
        ),
        out: o.out,
    })
}

struct Profile {
    r: Rng,
    left: usize,
    over: usize,
    /// choose by the model rather than freely, of 256
    model: u64,
    cmd: [u64; 8],
    end: u64,
    eof: bool,
    wild: u64,
    map_stop: u64,
    map_new: u64,
    mix: u8,
    mix_any: bool,
    long: u64,
    far: u64,
    map_last: u32,
    map_len: u32,
    map_goal: [u32; 2],
}

fn codable(freq: &mut dyn FnMut(u8) -> u16, v: u8) -> bool {
    (1..0x8000).contains(&freq(v))
}
fn by_model(r: &mut Rng, freq: &mut dyn FnMut(u8) -> u16) -> u8 {
    let mut f = [0u64; 16];
    let mut t = 0;
    for (i, x) in f.iter_mut().enumerate() {
        *x = if codable(freq, i as u8) { freq(i as u8) as u64 } else { 0 };
        t += *x;
    }
    let mut v = r.below(t);
    for (i, x) in f.iter().enumerate() {
        if v < *x {
            return i as u8;
        }
        v -= *x;
    }
    0
}
impl Profile {
    fn pick(&mut self, fld: Field, freq: &mut dyn FnMut(u8) -> u16) -> Option<u8> {
        if self.left > 0 {
            self.left -= 1;
        } else {
            // the choices are used up: finish this command and end
            self.over += 1;
            if self.over > 70_000 || (fld == Field::Command && !self.eof) {
                return None;
            }
            match fld {
                Field::Command => return Some(15),
                Field::MapMnemonic(_) if self.map_goal[0] < 16384 && self.map_goal[1] < 1024 => return Some(14),
                _ => {}
            }
        }
        if self.r.below(65536) < self.wild {
            return Some(self.r.below(16) as u8);
        }
        let free = |p: &mut Self, freq: &mut dyn FnMut(u8) -> u16| {
            if p.r.below(256) < p.model {
                by_model(&mut p.r, freq)
            } else {
                p.r.below(16) as u8
            }
        };
        Some(match fld {
            Field::Command => {
                if self.eof && self.r.below(1 << 16) < self.end {
                    return Some(15);
                }
                let t: u64 = self.cmd.iter().sum();
                let mut v = self.r.below(t);
                let mut k = 0;
                while v >= self.cmd[k] {
                    v -= self.cmd[k];
                    k += 1;
                }
                k as u8
            }
            Field::CopySmall | Field::LitSmall => {
                if self.r.below(256) < self.long {
                    15
                } else {
                    free(self, freq).min(13)
                }
            }
            Field::CopyFirst | Field::LitFirst => {
                if self.r.below(256) < self.long / 4 {
                    self.r.below(16) as u8
                } else {
                    self.r.below(7) as u8
                }
            }
            Field::CopyBig | Field::LitBig => {
                if self.r.below(256) < self.long / 4 {
                    self.r.below(16) as u8
                } else {
                    0
                }
            }
            Field::DistFirst => {
                if self.r.below(256) < self.far {
                    self.r.below(16) as u8
                } else {
                    self.r.below(9) as u8
                }
            }
            Field::DictSize => {
                if self.r.below(16) == 0 {
                    self.r.below(16) as u8
                } else {
                    free(self, freq)
                }
            }
            Field::DictSizeBig => {
                if self.r.below(60) == 0 {
                    self.r.below(16) as u8
                } else {
                    self.r.below(6) as u8
                }
            }
            Field::DistMnemonic => match self.r.below(8) {
                0 => self.r.below(16) as u8,
                1 => self.r.below(4) as u8,
                2 => free(self, freq),
                _ => 15,
            },
            Field::DictTrHigh => {
                if self.r.below(40) == 0 {
                    self.r.below(16) as u8
                } else {
                    self.r.below(7) as u8
                }
            }
            Field::PmMode => self.r.below(4) as u8,
            Field::PmDynamic => self.r.below(2) as u8,
            Field::PmDepth => free(self, freq),
            Field::MapMnemonic(dist) => {
                let tag = 1 + dist as u32;
                if self.map_last != tag {
                    self.map_last = tag;
                    self.map_len = 0;
                }
                let goal = self.map_goal[dist as usize];
                if self.map_len >= goal || (self.map_stop > 0 && self.r.below(self.map_stop) == 0) {
                    self.map_last = 0;
                    14
                } else {
                    self.map_len += 1;
                    if self.r.below(256) < self.map_new {
                        *[15u8, 13].get(self.r.below(2) as usize).unwrap()
                    } else {
                        self.r.below(3) as u8
                    }
                }
            }
            Field::Mix => {
                if self.mix_any {
                    self.r.below(16) as u8
                } else {
                    self.mix
                }
            }
            _ => free(self, freq),
        })
    }
}

pub struct Made {
    pub stream: Vec<u8>,
    /// the bytes the stream stands for, when it is complete
    pub out: Option<Vec<u8>>,
    pub desc: String,
}

/// A stream of chosen symbols.
pub fn stream(s: &mut Src, max_out: usize) -> Made {
    let window = 10 + s.below(7) as u8;
    let maps = s.chance(1, 3);
    let left = s.logrange(1, if maps { 60_000 } else { 12_000 });
    let mut cmd = [0u64, 8, 3, 8, 0, 0, 0, 0];
    if s.chance(1, 2) {
        for k in 4..7 {
            cmd[k] = s.below(6);
        }
    }
    if maps {
        cmd[7] = *s.pick(&[1, 1, 4, 60]);
    }
    let full = [16384u32, 1024];
    let mut map_goal = [0u32; 2];
    for (k, f) in full.iter().enumerate() {
        map_goal[k] = match s.weighted(&[4, 3, 2, 2]) {
            0 => s.range(0, 64) as u32,
            1 => s.logrange(0, *f as usize) as u32,
            2 => *f - s.below(2) as u32,
            _ => *f + s.below(3) as u32,
        };
    }
    let p = Profile {
        model: *s.pick(&[200u64, 256, 0, 128, 250]),
        cmd,
        end: *s.pick(&[0u64, 0, 300, 3000]),
        eof: !s.chance(1, 12),
        wild: *s.pick(&[0u64, 0, 0, 0, 2, 20, 300]),
        map_stop: *s.pick(&[0u64, 0, 0, 4000, 60]),
        map_new: *s.pick(&[40u64, 0, 5, 256]),
        mix: s.below(16) as u8,
        mix_any: s.chance(1, 3),
        long: *s.pick(&[30u64, 0, 100, 256]),
        far: *s.pick(&[10u64, 0, 80, 256]),
        map_last: 0,
        map_len: 0,
        map_goal,
        left,
        over: 0,
        r: Rng::new(s.u64()),
    };
    let mut p = p;
    let o = g::generate(
        window,
        max_out,
        Box::new(move |f, q: &mut dyn FnMut(u8) -> u16| {
            let v = p.pick(f, q)?;
            if codable(q, v) {
                return Some(v);
            }
            // adaptation speeds no encoder uses can leave a symbol without a share
            (0..16).map(|k| (v + k) & 15).find(|v| codable(q, *v))
        }),
    );
    let sub = [code(&o.log[0]), code(&o.log[1])];
    let maxc = s.logrange(1, 5000);
    let body = muxed::remux(&sub, &mut || (s.usize(2), 1 + s.usize(maxc)));
    let mut h = vec![0xff, 0xe5, 0x8c, 0x9f, 0, window];
    h.resize(16, 0);
    Made {
        stream: muxed::wrap(&h, &body),
        desc: format!(
            "chosen symbols: {} and {} of them, window {}, {} bytes out, {}",
            o.log[0].len(),
            o.log[1].len(),
            window,
            o.out.len(),
            if o.panic.is_some() {
                "the frozen decoder panicked"
            } else if o.complete {
                "complete"
            } else {
                "not complete"
            }
        ),
        out: if o.complete { Some(o.out) } else { None },
    }
}
