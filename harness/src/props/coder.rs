//! P10 (entropy coder), P11 (probability models), P16 (checksum), P17 (division): the parts that need nothing
//! but the crate's public types.  The hook binaries (src/bin/p11.rs, p16.rs, p17.rs) use the generic pieces
//! here on the private models as well.
use crate::drive::*;
use crate::gen;
use crate::refs::crc32c;
use crate::runner::{Ctx, Prop};
use crate::src::{Rng, Src};
use alloc_stdlib::HeapAlloc;
use divans::interface::{ReadableBytes, WritableBytes};
use divans::{ArithmeticEncoderOrDecoder, BaseCDF, DefaultCDF16, DivansCompressorFactory, DivansDecompressorFactory, DivansResult, NewWithAllocator, Speed, CDF16, CDF2, StaticCommand};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", quick: 120000, thorough: 1500000, rule: P10_RULE, case: p10, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P11", quick: 60000, thorough: 1000000, rule: P11_RULE, case: p11_public, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P16", quick: 4000, thorough: 100000, rule: P16_RULE, case: p16_trailer, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P17", quick: 30000, thorough: 300000, rule: P17_RULE, case: p17_public, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
    ]
}
pub const P10_RULE: &str = "case = a sequence of 0 to ~200000 coding operations (bits with any 8-bit probability; nibbles under the adaptive model with any codable speed, under averages of two such models, under arbitrary valid 16-symbol distributions including ones where a single symbol has nearly all the mass; probable and improbable symbols), lengths clustered at the coder's 65536-symbol flush boundary; encoder drained and decoder fed through buffers of any size (including 0 and 1 byte), both objects moved at arbitrary points; every decoded symbol and reported probability is compared with the encoder's; non-trivial: at least 16 operations including both bits and nibbles, or more than 65536 operations";
pub const P11_RULE: &str = "case = a history of 0 to 3000 updates of one or two models with speeds drawn over the whole codable range (changing within the history), symbols skewed or uniform, optionally followed by averaging two models with any weight; after sampled steps: every symbol non-zero, cumulative counts strictly increasing and within 15 bits, coder intervals disjoint, in range and non-empty, and every one of the 2^15 lookup offsets inside an interval maps back to that symbol with the encoder's start and frequency; fast and reference model, and the plain and multi-speed wrappers, compared step by step where the private models are reachable; non-trivial: at least 20 updates that include a halving or an average";
pub const P16_RULE: &str = "case = a stream of every encoder (hybrid, brotli bitstream, built-in) with generated options and chunking whose last 8 bytes must be CRC-32C (an independent bit-by-bit implementation) of all bytes before them and the tag, and where the private function is reachable a buffer at every alignment split arbitrarily into successive updates, compared after every update; one case in 512 makes a single update of up to 24 MiB; case 0 also evaluates every single-non-zero-byte 16-byte block (all table entries); non-trivial: at least 32 bytes summed, at least two updates or a produced stream";
pub const P17_RULE: &str = "case = one divisor: every quotient q in 0..=32768 at both ends of its interval (q*d and q*d+d-1), which decides all dividends in between because the multiply-shift is monotone, plus random dividends to 2^30; precomputed against computed reciprocal; all 8-bit divisors times all 16-bit dividends; where only the public model types are reachable, the divisors are the totals reached by generated update histories; non-trivial: the divisor is not a power of two";

pub type Enc = <InternalFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::DefaultEncoder;
pub type Dcd = <DecFactory as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder;

// ------------------------------------------------------------------ P10

/// An arbitrary valid distribution.
#[derive(Clone, Copy)]
pub struct Raw {
    c: [i16; 16],
}
impl Default for Raw {
    fn default() -> Raw {
        let mut c = [0i16; 16];
        for (i, x) in c.iter_mut().enumerate() {
            *x = 4 * (i as i16 + 1);
        }
        Raw { c }
    }
}
impl BaseCDF for Raw {
    fn num_symbols() -> u8 {
        16
    }
    fn cdf(&self, s: u8) -> i16 {
        self.c[s as usize]
    }
    fn div_by_max(&self, v: i32) -> i32 {
        v / self.c[15] as i32
    }
    fn max(&self) -> i16 {
        self.c[15]
    }
    fn log_max(&self) -> Option<i8> {
        None
    }
}
impl CDF16 for Raw {
    fn blend(&mut self, _: u8, _: Speed) {}
    fn average(&self, _: &Self, _: i32) -> Self {
        *self
    }
}
fn raw(r: &mut Rng) -> Raw {
    // every symbol at least 2 counts, which keeps every interval non-empty after the coder's trimming
    let mut w = [2i32; 16];
    let total = 32 + match r.below(4) {
        0 => r.below(64),
        1 => r.below(2048),
        2 => r.below(32735),
        _ => 32735,
    } as i32;
    let mut left = total - 32;
    let mode = r.below(3);
    if mode == 0 {
        w[r.below(16) as usize] += left;
    } else {
        let k = if mode == 1 { 3 } else { 40 };
        for _ in 0..k {
            let x = r.below(left as u64 + 1) as i32 / if mode == 1 { 1 } else { 8 };
            w[r.below(16) as usize] += x;
            left -= x;
        }
        w[15] += left;
    }
    let mut c = [0i16; 16];
    let mut s = 0;
    for i in 0..16 {
        s += w[i];
        c[i] = s as i16;
    }
    Raw { c }
}

/// Codable speeds: the counters stay within 15 bits.
pub fn codable_speed(r: &mut Rng) -> Speed {
    match r.below(5) {
        // as the decoder sees a speed, including limits whose 8-bit form decodes to a negative number
        4 => {
            let b = r.below(13);
            let inc = r.below(1 << b);
            Speed::from_f8_tuple(Speed::new(inc.min(MAX_INC as u64) as i16, r.below(16385) as i16).to_f8_tuple())
        }
        0 => Speed::ENCODER_DEFAULT_PALETTE[r.below(15) as usize],
        1 => [Speed::GEOLOGIC, Speed::GLACIAL, Speed::MUD, Speed::SLOW, Speed::MED, Speed::FAST, Speed::PLANE, Speed::ROCKET][r.below(8) as usize],
        2 => {
            let b = r.below(13);
            let inc = r.below(1 << b);
            Speed::new(inc.min(MAX_INC as u64) as i16, (1 + r.below(16384)) as i16)
        }
        _ => {
            let inc = MAX_INC - r.below(64) as i16;
            Speed::new(inc, if r.below(2) == 0 { 16384 } else { 16384 - r.below(200) as i16 })
        }
    }
}
/// With an increment of at most this (the largest an encoder hands out) and a limit of at most 2^14 the total never exceeds 15 bits.
pub const MAX_INC: i16 = 7680;

enum Op {
    Bit(bool, u8),
    Adaptive(u8, usize, Speed),
    Avg(u8, i32),
    Raw(u8, Raw),
    Pair(u8, CDF2),
}

/// Segments expand to operations the same way on both sides.
struct Seg {
    kind: usize,
    n: usize,
    seed: u64,
}

fn sym_of<C: BaseCDF>(r: &mut Rng, c: &C, rare: u64) -> u8 {
    match rare {
        0 => r.below(16) as u8,
        1 => {
            let x = r.below(c.max() as u64) as i16;
            (0..16).find(|s| x < c.cdf(*s)).unwrap_or(15)
        }
        _ => {
            // the least probable symbol
            (0..16u8).min_by_key(|s| c.pdf(*s)).unwrap()
        }
    }
}

struct Models {
    m: [DefaultCDF16; 4],
    two: [CDF2; 2],
}
impl Models {
    fn new() -> Models {
        Models { m: [DefaultCDF16::default(); 4], two: [CDF2::default(); 2] }
    }
}

/// Calls `f` with each operation and the models in the state both sides agree on.
fn expand(segs: &[Seg], mut f: impl FnMut(&Op, &Models) -> Result<(), String>) -> Result<(), String> {
    let mut md = Models::new();
    for s in segs {
        let mut r = Rng::new(s.seed);
        let p = [0u8, 1, 2, 64, 127, 128, 129, 200, 254, 255][r.below(10) as usize];
        let bias = r.below(4);
        let rare = r.below(4);
        let mut fixed = raw(&mut r);
        let sp = codable_speed(&mut r);
        for _ in 0..s.n {
            let kind = if s.kind == 7 { r.below(7) as usize } else { s.kind };
            let op = match kind {
                0 => Op::Bit(match bias { 0 => false, 1 => true, 2 => r.below(256) >= p as u64, _ => r.below(256) < p as u64 }, p),
                1 => Op::Bit(r.below(2) == 1, r.below(256) as u8),
                2 => {
                    let i = r.below(4) as usize;
                    Op::Adaptive(sym_of(&mut r, &md.m[i], rare), i, sp)
                }
                3 => Op::Avg(sym_of(&mut r, &md.m[0], rare), r.below(32769) as i32),
                4 => {
                    fixed = raw(&mut r);
                    Op::Raw(sym_of(&mut r, &fixed, rare), fixed)
                }
                5 => Op::Raw(sym_of(&mut r, &fixed, rare), fixed),
                _ => {
                    let i = r.below(2) as usize;
                    Op::Pair(if r.below(16) == 0 { r.below(2) as u8 } else { bias as u8 & 1 }, md.two[i])
                }
            };
            f(&op, &md)?;
            match op {
                Op::Adaptive(v, i, sp) => md.m[i].blend(v, sp),
                Op::Pair(v, _) => {
                    let i = r.below(2) as usize;
                    md.two[i].blend(v != 0, &sp)
                }
                _ => {}
            }
        }
    }
    Ok(())
}

fn range_of<R: std::fmt::Debug>(r: R) -> String {
    format!("{:?}", r)
}

/// Performs one coder operation; on encode `v` is the symbol, on decode it is overwritten.
fn code<K: ArithmeticEncoderOrDecoder>(k: &mut K, op: &Op, md: &Models, v: &mut u8, want_range: bool) -> Option<String> {
    macro_rules! nib {
        ($c:expr) => {{
            let r = k.get_or_put_nibble_without_billing(v, $c);
            if want_range { Some(range_of(r)) } else { None }
        }};
    }
    match op {
        Op::Bit(_, p) => {
            let mut b = *v != 0;
            k.get_or_put_bit_without_billing(&mut b, *p);
            *v = b as u8;
            None
        }
        Op::Pair(_, c) => {
            let mut b = *v != 0;
            k.get_or_put_bit_without_billing(&mut b, c.prob);
            *v = b as u8;
            None
        }
        Op::Adaptive(_, i, _) => nib!(&md.m[*i]),
        Op::Avg(_, w) => nib!(&md.m[0].average(&md.m[1], *w)),
        Op::Raw(_, c) => nib!(c),
    }
}
fn value(op: &Op) -> u8 {
    match op {
        Op::Bit(b, _) => *b as u8,
        Op::Adaptive(v, ..) | Op::Avg(v, _) | Op::Raw(v, _) | Op::Pair(v, _) => *v,
    }
}

fn chunk(r: &mut Rng, style: usize) -> usize {
    match style {
        0 => 1 << 20,
        1 => 1,
        2 => r.below(5) as usize,
        3 => 1 + r.below(16) as usize,
        4 => 16,
        _ => r.below(300) as usize,
    }
}

fn p10(c: &mut Ctx) -> Result<(), String> {
    let s = &mut c.s;
    let nseg = s.range(1, 4);
    let mut segs: Vec<Seg> = vec![];
    for _ in 0..nseg {
        let kind = s.usize(8);
        let n = s.logrange(0, 400);
        segs.push(Seg { kind, n, seed: s.u64() });
    }
    // sometimes pad with cheap operations to a length near a flush boundary
    if s.chance(1, 12) {
        let target = 65536 * s.range(1, 3) as i64 + s.below(9) as i64 - 4;
        let have: i64 = segs.iter().map(|x| x.n as i64).sum();
        let kind = *s.pick(&[0usize, 1, 5, 2, 7]);
        let pad = Seg { kind, n: (target - have).max(0) as usize, seed: s.u64() };
        let at = s.usize(segs.len() + 1);
        segs.insert(at, pad);
    }
    let drain = s.usize(6);
    let feed = s.usize(6);
    let cseed = s.u64();
    let moves = s.chance(1, 3);
    let total: usize = segs.iter().map(|x| x.n).sum();
    c.desc = format!(
        "segments={:?} drain style {} feed style {} moves={}",
        segs.iter().map(|x| (["bits one prob", "bits any prob", "adaptive", "averaged", "arbitrary dists", "one dist", "adaptive bits", "mixture"][x.kind], x.n)).collect::<Vec<_>>(),
        drain, feed, moves
    );
    let mut a8 = HeapAlloc::<u8>::new(0);
    let mut enc = Enc::new(&mut a8);
    let mut rc = Rng::new(cseed);
    let mut stream: Vec<u8> = vec![];
    let mut ranges: Vec<Option<String>> = vec![];
    // ranges are kept as text; bound the cost on long sequences
    let stride = 1 + total / 4096;
    let mut pull = |enc: &mut Enc, rc: &mut Rng, stream: &mut Vec<u8>| -> Result<(), String> {
        let mut idle = 0;
        loop {
            let mut buf = vec![0xa5u8; chunk(rc, drain).min(1 << 19)];
            let (mut ro, mut wo) = (0usize, 0usize);
            let r = enc.drain_or_fill_internal_buffer(&mut ReadableBytes { data: &[], read_offset: &mut ro }, &mut WritableBytes { data: &mut buf[..], write_offset: &mut wo });
            if wo > buf.len() {
                return Err(format!("bounds: the encoder reports {} bytes written to a buffer of {}", wo, buf.len()));
            }
            stream.extend_from_slice(&buf[..wo]);
            match r {
                DivansResult::Success => break,
                DivansResult::NeedsMoreOutput => {
                    if wo < buf.len() {
                        return Err(format!("drain: asked for more output with {} of {} bytes written", wo, buf.len()));
                    }
                    idle = if wo == 0 { idle + 1 } else { 0 };
                    if idle > 1000 {
                        return Err("drain: no progress".into());
                    }
                }
                o => return Err(format!("drain: unexpected result {}", res_name(&o))),
            }
        }
        if enc.has_data_to_drain_or_fill() {
            return Err("drain: Success with data left to drain".into());
        }
        Ok(())
    };
    let (mut bits, mut nibs, mut k) = (0u64, 0u64, 0usize);
    expand(&segs, |op, md| {
        if moves && rc.below(64) == 0 {
            enc = enc.mov();
        }
        match op {
            Op::Bit(..) | Op::Pair(..) => bits += 1,
            _ => nibs += 1,
        }
        let mut v = value(op);
        let r = code(&mut enc, op, md, &mut v, k % stride == 0);
        if k % stride == 0 {
            ranges.push(r);
        }
        k += 1;
        if enc.has_data_to_drain_or_fill() {
            pull(&mut enc, &mut rc, &mut stream)?;
        }
        Ok(())
    })?;
    match enc.close() {
        DivansResult::Success => {}
        o => return Err(format!("close: encoder close returned {}", res_name(&o))),
    }
    pull(&mut enc, &mut rc, &mut stream)?;
    enc.free(&mut a8);

    let mut dec = Dcd::new(&mut a8);
    let (mut pos, mut avail, mut k) = (0usize, 0usize, 0usize);
    expand(&segs, |op, md| {
        if moves && rc.below(64) == 0 {
            dec = dec.mov();
        }
        loop {
            let mut wo = 0usize;
            let before = pos;
            let r = dec.drain_or_fill_internal_buffer(&mut ReadableBytes { data: &stream[..avail], read_offset: &mut pos }, &mut WritableBytes { data: &mut [], write_offset: &mut wo });
            if pos > avail || pos < before {
                return Err(format!("bounds: decoder read offset went from {} to {} of {}", before, pos, avail));
            }
            match r {
                DivansResult::Success => break,
                DivansResult::NeedsMoreInput => {
                    if pos < avail {
                        // it may take the bytes in several steps, but has to take some
                        if pos == before {
                            return Err("feed: asked for more input without using what it had".into());
                        }
                        continue;
                    }
                    if avail == stream.len() {
                        return Err(format!("starved: operation {} of {} needs more than the {} bytes the encoder produced", k, total, stream.len()));
                    }
                    avail = (avail + chunk(&mut rc, feed)).min(stream.len());
                }
                o => return Err(format!("feed: unexpected result {}", res_name(&o))),
            }
        }
        // a non-neutral previous content must not matter
        let mut v = if matches!(op, Op::Bit(..) | Op::Pair(..)) { (k & 1) as u8 } else { (k & 15) as u8 };
        let r = code(&mut dec, op, md, &mut v, k % stride == 0);
        if v != value(op) {
            return Err(format!("symbol: operation {} of {} decoded {} instead of {}", k, total, v, value(op)));
        }
        if k % stride == 0 && ranges[k / stride] != r {
            return Err(format!("range: operation {} of {} reports {:?} on decode and {:?} on encode", k, total, r, ranges[k / stride]));
        }
        k += 1;
        Ok(())
    })?;
    match dec.close() {
        DivansResult::Success => {}
        o => return Err(format!("close: decoder close returned {}", res_name(&o))),
    }
    c.checks += total as u64 * 2;
    c.nontrivial = (bits > 0 && nibs > 0 && total >= 16) || total > 65536;
    c.class(if total > 65530 { "crosses the flush boundary" } else { "single block" });
    for x in &segs {
        c.class(["bits one prob", "bits any prob", "adaptive", "averaged", "arbitrary dists", "one dist", "adaptive bits", "mixture"][x.kind]);
    }
    Ok(())
}

// ------------------------------------------------------------------ P11

/// The validity of one model; `offsets`: check every lookup offset as well.
pub fn check_model<C: CDF16>(m: &C, offsets: bool, what: &str) -> Result<u64, String> {
    let max = m.max() as i64;
    if max <= 0 {
        return Err(format!("total: {} has total {}", what, max));
    }
    if m.cdf(15) != m.max() {
        return Err(format!("total: {} has cdf(15)={} and total {}", what, m.cdf(15), max));
    }
    let mut prev = 0i64;
    for s in 0..16u8 {
        let x = m.cdf(s) as i64;
        if x <= prev {
            return Err(format!("zero: {} gives symbol {} no probability (cdf {} after {})", what, s, x, prev));
        }
        if m.pdf(s) as i64 != x - prev {
            return Err(format!("pdf: {} symbol {} pdf {} but cdf difference {}", what, s, m.pdf(s), x - prev));
        }
        prev = x;
    }
    let mut end = 0i64;
    let mut n = 0;
    for s in 0..16u8 {
        let q = m.sym_to_start_and_freq(s);
        let (st, fr) = (q.range.start as i64, q.range.freq as i64);
        if q.sym != s {
            return Err(format!("interval: {} symbol {} comes back as {}", what, s, q.sym));
        }
        if st < end || fr <= 0 || st + fr > 32768 {
            return Err(format!("interval: {} symbol {} has start {} frequency {} after {}", what, s, st, fr, end));
        }
        end = st + fr;
        if offsets {
            for o in st..st + fr {
                let l = m.cdf_offset_to_sym_start_and_freq(o as i16);
                if l.sym != s || l.range.start as i64 != st || l.range.freq as i64 != fr {
                    return Err(format!("lookup: {} offset {} inside symbol {} (start {} freq {}) gives symbol {} start {} freq {}", what, o, s, st, fr, l.sym, l.range.start, l.range.freq));
                }
            }
            n += fr as u64;
        } else {
            for o in [st, st + fr - 1, st + fr / 2] {
                let l = m.cdf_offset_to_sym_start_and_freq(o as i16);
                if l.sym != s || l.range.start as i64 != st || l.range.freq as i64 != fr {
                    return Err(format!("lookup: {} offset {} inside symbol {} (start {} freq {}) gives symbol {} start {} freq {}", what, o, s, st, fr, l.sym, l.range.start, l.range.freq));
                }
            }
            n += 3;
        }
    }
    Ok(n)
}

/// Two models agree exactly.
pub fn same<A: CDF16, B: CDF16>(a: &A, b: &B, what: &str) -> Result<(), String> {
    if a.max() != b.max() {
        return Err(format!("agree: {}: totals {} and {}", what, a.max(), b.max()));
    }
    for s in 0..16u8 {
        if a.cdf(s) != b.cdf(s) {
            return Err(format!("agree: {}: cdf({}) {} and {}", what, s, a.cdf(s), b.cdf(s)));
        }
        let (x, y) = (a.sym_to_start_and_freq(s), b.sym_to_start_and_freq(s));
        if x.range.start != y.range.start || x.range.freq != y.range.freq {
            return Err(format!("agree: {}: interval of {} is {:?} and {:?}", what, s, x.range, y.range));
        }
    }
    Ok(())
}

/// A generated update history: (model 0 or 1, symbol, speed).
pub fn history(s: &mut Src, desc: &mut String) -> Vec<(usize, u8, Speed)> {
    let n = s.logrange(0, 3000);
    let seed = s.u64();
    let mode = s.usize(5);
    let sp_mode = s.usize(3);
    let mut r = Rng::new(seed);
    let fixed = [codable_speed(&mut r), codable_speed(&mut r)];
    let hot = r.below(16) as u8;
    let sticky = 1 + r.below(200);
    let mut cur = hot;
    *desc = format!("{} updates, symbols {}, speeds {:?}", n, ["uniform", "one symbol", "skewed", "sticky", "counter"][mode], if sp_mode == 2 { "changing".to_string() } else { format!("{:?}", &fixed[..1 + sp_mode]) });
    (0..n)
        .map(|i| {
            let sym = match mode {
                0 => r.below(16) as u8,
                1 => hot,
                2 => if r.below(10) > 0 { hot } else { r.below(16) as u8 },
                3 => {
                    if r.below(sticky) == 0 {
                        cur = r.below(16) as u8;
                    }
                    cur
                }
                _ => (i & 15) as u8,
            };
            let w = r.below(2) as usize;
            let sp = match sp_mode {
                0 => fixed[0],
                1 => fixed[w],
                _ => codable_speed(&mut r),
            };
            (w, sym, sp)
        })
        .collect()
}

pub fn weight(s: &mut Src) -> i32 {
    match s.weighted(&[2, 1, 1, 4]) {
        0 => 16384,
        1 => 0,
        2 => 32768,
        _ => s.below(32769) as i32,
    }
}

/// The history applied to `C`, with the validity conditions; returns the two models.
pub fn run_history<C: CDF16>(c: &mut Ctx, h: &[(usize, u8, Speed)], what: &str) -> Result<[C; 2], String> {
    let mut m = [C::default(), C::default()];
    let mut halved = false;
    c.checks += check_model(&m[0], true, "the initial model")?;
    // all offsets at a few steps, ends and middle at the others
    let full = h.len().saturating_sub(1);
    for (i, (w, sym, sp)) in h.iter().enumerate() {
        let before = m[*w].max();
        m[*w].blend(*sym, *sp);
        halved |= (m[*w].max() as i32) < before as i32 + sp.inc() as i32;
        c.checks += check_model(&m[*w], i == full || i * 2 == full, &format!("{} after {} updates (last: symbol {} {:?})", what, i + 1, sym, sp))?;
    }
    c.nontrivial |= h.len() >= 20 && halved;
    Ok(m)
}

pub fn speeds(c: &mut Ctx) -> Result<(), String> {
    // a speed given to a model has passed through its 8-bit form on both sides
    for inc in 0..=12287i16 {
        for lim in [0i16, 16, 48, 1000, 12287, 16384] {
            let a = Speed::from_f8_tuple(Speed::new(inc, lim).to_f8_tuple());
            let b = Speed::from_f8_tuple(a.to_f8_tuple());
            if a != b {
                return Err(format!("speed: {:?} becomes {:?} and then {:?}", Speed::new(inc, lim), a, b));
            }
            if a.inc() < 0 || a.inc() > inc {
                return Err(format!("speed: increment {} becomes {}", inc, a.inc()));
            }
            c.checks += 1;
        }
    }
    for lim in (0..=12287i16).chain(16384..=16384) {
        let a = Speed::from_f8_tuple(Speed::new(1, lim).to_f8_tuple());
        if a != Speed::from_f8_tuple(a.to_f8_tuple()) || a.lim() < 0 || a.lim() > lim {
            return Err(format!("speed: limit {} becomes {:?}", lim, a));
        }
        c.checks += 1;
    }
    for s in Speed::ENCODER_DEFAULT_PALETTE.iter() {
        let a = Speed::from_f8_tuple(s.to_f8_tuple());
        if a != Speed::from_f8_tuple(a.to_f8_tuple()) {
            return Err(format!("speed: {:?}", s));
        }
    }
    Ok(())
}

/// The adaptive bit model under arbitrary histories.
pub fn two_symbol(c: &mut Ctx) -> Result<(), String> {
    let n = c.s.logrange(0, 2000);
    let mut r = Rng::new(c.s.u64());
    let bias = [1u64, 2, 16, 300, 100000][r.below(5) as usize];
    let which = r.below(2) == 1;
    let mut m = CDF2::default();
    for i in 0..n {
        let b = if r.below(bias) == 0 { r.below(2) == 1 } else { which };
        m.blend(b, &Speed::MED);
        if m.cdf(0) < 0 || m.cdf(0) > 255 || m.cdf(1) != 256 || m.max() != 256 || m.pdf(0) + m.pdf(1) != 256 || m.prob as i16 != m.cdf(0) {
            return Err(format!("bit model: after {} updates cdf is {} {} of {}", i + 1, m.cdf(0), m.cdf(1), m.max()));
        }
        c.checks += 1;
    }
    Ok(())
}

fn p11_public(c: &mut Ctx) -> Result<(), String> {
    p11_with(c, |_, _, _| Ok(()))
}

/// `extra` gets the history and the averaging weights.
pub fn p11_with(c: &mut Ctx, extra: impl Fn(&mut Ctx, &[(usize, u8, Speed)], &[i32]) -> Result<(), String>) -> Result<(), String> {
    if c.index == 0 {
        speeds(c)?;
    }
    let mut d = String::new();
    let h = history(&mut c.s, &mut d);
    let nw = c.s.usize(4);
    let ws: Vec<i32> = (0..nw).map(|_| weight(&mut c.s)).collect();
    c.desc = format!("{}; averages with weights {:?}", d, ws);
    let m = run_history::<DefaultCDF16>(c, &h, "the adaptive model")?;
    let mut acc = m[0];
    for w in &ws {
        acc = acc.average(&m[1], *w);
        c.checks += check_model(&acc, true, &format!("the average with weight {}", w))?;
        acc = m[0];
        c.nontrivial |= h.len() >= 20;
    }
    two_symbol(c)?;
    extra(c, &h, &ws)?;
    c.class(if h.is_empty() { "no update" } else if h.len() < 100 { "short history" } else { "long history" });
    if nw > 0 {
        c.class("averaged");
    }
    Ok(())
}

// ------------------------------------------------------------------ P16

/// Trailers of produced streams.
pub fn p16_trailer(c: &mut Ctx) -> Result<(), String> {
    let d = gen::data(&mut c.s, 3000);
    let kind = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
    let o = gen::options(&mut c.s, 10, 22, 5, true);
    let st = compress(kind, o.opts, &d.bytes)?;
    c.desc = format!("stream of {} bytes from the {:?} encoder for {} bytes of input, {}", st.len(), kind, d.bytes.len(), o.desc);
    trailer(&st)?;
    c.checks += 1;
    c.nontrivial = st.len() >= 40;
    c.class(format!("{:?} stream", kind));
    Ok(())
}
pub fn trailer(st: &[u8]) -> Result<(), String> {
    if st.len() < 8 {
        return Err(format!("trailer: the stream has only {} bytes", st.len()));
    }
    let n = st.len();
    let want = crc32c(&st[..n - 8]).to_le_bytes();
    if st[n - 8..n - 4] != want {
        return Err(format!("trailer: stream of {} bytes ends in checksum {:02x?}, CRC-32C is {:02x?}", n, &st[n - 8..n - 4], want));
    }
    if &st[n - 4..] != b"ans~" {
        return Err(format!("trailer: stream of {} bytes ends in tag {:02x?}", n, &st[n - 4..]));
    }
    Ok(())
}

// ------------------------------------------------------------------ P17

/// Both ends of every quotient's interval; `div` is assumed to take dividends up to 2^30.
pub fn division(d: i64, r: &mut Rng, mut div: impl FnMut(i32) -> i32) -> Result<u64, String> {
    let mut n = 0;
    let mut one = |v: i64| -> Result<(), String> {
        let q = div(v as i32) as i64;
        if q != v / d {
            return Err(format!("quotient: {} / {} gives {} instead of {}", v, d, q, v / d));
        }
        Ok(())
    };
    for q in 0..=32768i64 {
        one(q * d)?;
        one(q * d + d - 1)?;
        n += 2;
    }
    for _ in 0..200 {
        one(r.below((1 << 30) + 1) as i64)?;
        n += 1;
    }
    one((1 << 30) - 1)?;
    one(1 << 30)?;
    Ok(n + 2)
}

pub fn p17_public(c: &mut Ctx) -> Result<(), String> {
    let seed = c.s.u64();
    let n = c.s.logrange(0, 300);
    let mut r = Rng::new(seed);
    let sp = codable_speed(&mut r);
    let mut m = DefaultCDF16::default();
    for _ in 0..n {
        m.blend(r.below(16) as u8, sp);
    }
    let d = m.max() as i64;
    c.desc = format!("model total {} after {} updates at {:?}", d, n, sp);
    c.checks += division(d, &mut r, |v| m.div_by_max(v))?;
    c.key = Some(d as u64);
    c.nontrivial = d & (d - 1) != 0;
    Ok(())
}
