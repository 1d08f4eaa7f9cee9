//! Round trips and stream-level properties over the streaming interface: P01 P02 P03 P04 P06 P12 P13 P20 P21.
use crate::drive::*;
use crate::gen::{self, pat, Pat};
use crate::muxed;
use crate::lz;
use crate::runner::{Ctx, Prop};
use crate::src::{mix, Rng, Src};
use divans::{Compressor, DivansOutputResult, DivansRecodeState};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", quick: 4000, thorough: 60000, rule: P01_RULE, case: p01, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P02", quick: 15000, thorough: 60000, rule: P02_RULE, case: p02, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P03", quick: 1800, thorough: 30000, rule: P03_RULE, case: p03, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P04", quick: 1200, thorough: 20000, rule: P04_RULE, case: p04, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P06", quick: 800, thorough: 20000, rule: P06_RULE, case: p06, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P12", quick: 20000, thorough: 80000, rule: P12_RULE, case: p12, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P13", quick: 12000000, thorough: 60000000, rule: P13_RULE, case: p13, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P20", quick: 2500, thorough: 50000, rule: P20_RULE, case: p20, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P21", quick: 6000, thorough: 50000, rule: P21_RULE, case: p21, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
    ]
}

/// A size limit: mostly small, sometimes beyond the coder's and window's internal boundaries.
pub fn size_class(s: &mut Src, thorough: bool) -> usize {
    match s.weighted(&[8, 6, 3, 1]) {
        0 => 3000,
        1 => 40_000,
        2 => 300_000,
        _ => {
            if thorough {
                5_000_000
            } else {
                900_000
            }
        }
    }
}

fn seg_classes(c: &mut Ctx, classes: u16) {
    for (i, n) in gen::SEG_NAMES.iter().enumerate() {
        if classes & (1 << i) != 0 {
            c.class(format!("data:{}", n));
        }
    }
}
fn size_tag(n: usize) -> &'static str {
    match n {
        0 => "size:0",
        1..=99 => "size:1-99",
        100..=9_999 => "size:100-9999",
        10_000..=99_999 => "size:10k-99k",
        100_000..=999_999 => "size:100k-999k",
        _ => "size:1M+",
    }
}

/// Split `data` into writes following a pattern.
pub fn split<'a>(data: &'a [u8], p: &Pat) -> Vec<&'a [u8]> {
    let mut v: Vec<&[u8]> = vec![];
    let mut at = 0;
    let mut i = 0;
    while at < data.len() {
        let n = p.at(i).min(data.len() - at);
        i += 1;
        v.push(&data[at..at + n]);
        at += n;
    }
    v
}

const P01_RULE: &str = "case = option set (15 fields drawn over their accepted ranges) x byte string of 0 to 900 KB (5 MB thorough) from 11 data classes (one case in 50: blocks of 64 KiB whose metablocks can lie across the end of the encoder's ring) x write split x output-buffer pattern; compressed with the hybrid compressor and decoded with checksum on or off; non-trivial: at least 64 input bytes and at least one option away from its default or at least two writes";

fn p01(c: &mut Ctx) -> Result<(), String> {
    let lim = size_class(&mut c.s, c.thorough);
    let maxq = if lim > 100_000 { 9 } else { 11 };
    let mut o = gen::options(&mut c.s, 8, 26, maxq, true);
    if c.s.chance(1, 10) {
        o.opts.stride_detection_quality = Some(3 + c.s.below(2) as u8);
        o.desc = format!("{:?}", o.opts);
    }
    let ring = c.s.chance(1, 50);
    let d = if ring { gen::Data { bytes: gen::ring_data(&mut c.s), classes: 0 } } else { gen::data(&mut c.s, lim) };
    if ring {
        o.opts.lgblock = Some(16);
        o.opts.window_size = Some(c.s.below(9) as i32 + 8);
        o.opts.quality = Some(c.s.below(8) as u16 + 2);
        if c.s.chance(2, 3) {
            o.opts.divans_ir_optimizer = 1;
        }
        o.desc = format!("{:?}", o.opts);
        c.class("blocks across the encoder's ring");
    }
    let wp = pat(&mut c.s, d.bytes.len(), 3000);
    let op = pat(&mut c.s, d.bytes.len(), 3000);
    let skip = c.s.chance(1, 4);
    let ip = pat(&mut c.s, d.bytes.len(), 3000);
    let dp = pat(&mut c.s, d.bytes.len(), 3000);
    c.desc = format!("{} bytes, writes {:?}, out {:?}, decode in {:?} out {:?} skip_crc {}, {}", d.bytes.len(), wp.0, op.0, ip.0, dp.0, skip, o.desc);
    let writes = split(&d.bytes, &wp);
    c.nontrivial = d.bytes.len() >= 64 && (o.touched > 0 || writes.len() > 1);
    seg_classes(c, d.classes);
    c.class(size_tag(d.bytes.len()));
    let mut e = Encoder::new(Kind::Hybrid, o.opts);
    let enc = encode_writes(&mut e, &writes, &op, c.s.usize(4))?;
    c.checks += 1;
    let dec = decode(&enc.bytes, &ip, &dp, skip, false)?;
    expect_decoded(&dec, &d.bytes, enc.bytes.len(), "hybrid")
}

const P02_RULE: &str = "case = option set x byte string x write split (including empty writes and one-byte writes, windows down to 1 KiB so the ring wraps many times); compressed with the internal command-selection compressor; non-trivial: at least 64 bytes and (at least two writes or data longer than the window)";

fn p02(c: &mut Ctx) -> Result<(), String> {
    let lim = size_class(&mut c.s, c.thorough);
    let whi = if c.s.chance(1, 3) { 24 } else { 13 };
    let o = gen::options(&mut c.s, 8, whi, 11, false);
    let d = gen::data(&mut c.s, lim);
    let mut wp = pat(&mut c.s, d.bytes.len(), 6000);
    if c.s.chance(1, 3) {
        wp.0.push(0);
    }
    let op = pat(&mut c.s, d.bytes.len(), 3000);
    let ip = pat(&mut c.s, d.bytes.len(), 3000);
    let dp = pat(&mut c.s, d.bytes.len(), 3000);
    let tail_empty = c.s.chance(1, 4);
    c.desc = format!("{} bytes, writes {:?}, out {:?}, window {:?}, {}", d.bytes.len(), wp.0, op.0, o.opts.window_size, o.desc);
    let mut writes = split(&d.bytes, &wp);
    if tail_empty {
        writes.push(&[]);
    }
    let w = o.opts.window_size.unwrap_or(22).max(10).min(24);
    c.nontrivial = d.bytes.len() >= 64 && (writes.len() > 1 || d.bytes.len() > 1 << w);
    if d.bytes.len() > 1 << w {
        c.class("data longer than window");
    }
    seg_classes(c, d.classes);
    c.class(size_tag(d.bytes.len()));
    let mut e = Encoder::new(Kind::Internal, o.opts);
    let enc = encode_writes(&mut e, &writes, &op, c.s.usize(4))?;
    c.checks += 1;
    let dec = decode(&enc.bytes, &ip, &dp, false, false)?;
    expect_decoded(&dec, &d.bytes, enc.bytes.len(), "internal")
}

/// A complete stream from somewhere other than a compressor over bytes: a command sequence, or chosen symbols.
pub fn made_stream(c: &mut Ctx, lim: usize) -> Result<(Vec<u8>, Vec<u8>, String), String> {
    if c.s.chance(1, 30) {
        if let Some(b) = crate::symgen::boundary(&mut c.s) {
            c.class("entropy-code chunk boundary");
            return Ok((b.stream, b.out, b.desc));
        }
    }
    if c.s.chance(1, 2) {
        for _ in 0..4 {
            let m = crate::symgen::stream(&mut c.s, lim);
            if let Some(out) = m.out {
                c.class("stream of chosen symbols");
                return Ok((m.stream, out, m.desc));
            }
        }
    }
    c.class("stream of commands");
    let o = gen::options(&mut c.s, 10, 14, 9, false);
    let w = o.opts.window_size.unwrap_or(22).max(10).min(24) as u32;
    let co = lz::CmdOpts { window: w, max_out: lim, max_cmds: 60, meta: true, max_dist_slack: 16, huge: false };
    let (cs, want) = lz::commands(&mut c.s, &co);
    let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
    let mut e = Encoder::new(Kind::Internal, o.opts);
    let enc = encode_cmds(&mut e, &cmds, &Pat::of(1000), &Pat::big(), 0)?;
    Ok((enc.bytes, want, format!("commands [{}], {}", lz::brief(&cs), o.desc)))
}

const P03_RULE: &str = "case = one input and option set; the same writes are compressed with three output-buffer patterns (all must decode to the input; a repetition with the same buffers must give the identical stream), then the stream is decoded with four input/output chunk patterns including one-byte and empty buffers (bytes, verdict and consumed count must be identical), a damaged copy of it likewise (where its framing never ends, failure and a request for more input are not told apart); every call is checked for offset monotonicity, untouched bytes before the offset, no idle calls beyond a small bound, and call counts linear in data; one case in twelve is a stream whose entropy code starts over in the middle of a long literal, a run of short commands or a context map, also in states no encoder leaves, cut at every byte around that place; non-trivial: at least 32 bytes and a pattern with a chunk below 16, or such a boundary";

fn p03(c: &mut Ctx) -> Result<(), String> {
    if c.s.chance(1, 12) {
        return p03_boundary(c);
    }
    if c.s.chance(1, 4) {
        let (st, want, desc) = made_stream(c, 6000)?;
        let mut bad = st.clone();
        let bit = c.s.usize(bad.len() * 8);
        bad[bit / 8] ^= 1 << (bit % 8);
        c.desc = format!("{}, damaged bit {}", desc, bit);
        return p03_chunks(c, &st, &bad, &want);
    }
    let kind = if c.s.chance(1, 2) { Kind::Internal } else { Kind::Hybrid };
    let lim = match c.s.weighted(&[6, 3, 1]) {
        0 => 2000,
        1 => 30_000,
        _ => 200_000,
    };
    let whi = if c.s.chance(1, 3) { 22 } else { 12 };
    let o = gen::options(&mut c.s, 10, whi, 9, kind == Kind::Hybrid);
    let d = gen::data(&mut c.s, lim);
    let n = d.bytes.len();
    let wp = pat(&mut c.s, n, 3000);
    let writes = split(&d.bytes, &wp);
    let mut streams: Vec<Vec<u8>> = vec![];
    let mut descs = vec![];
    for k in 0..3 {
        let op = if k == 0 { Pat::big() } else { pat(&mut c.s, n, 20000) };
        let lead = if k == 0 { 0 } else { c.s.usize(9) };
        let mut e = Encoder::new(kind, o.opts);
        let enc = encode_writes(&mut e, &writes, &op, lead)?;
        let mean = (op.0.iter().sum::<usize>() / op.0.len()).max(1);
        let bound = 64 + 4 * op.0.len() * (writes.len() + 2) + 8 * op.0.len() * (enc.bytes.len() / mean + 1) + 2 * op.0.len() * n / 64;
        if enc.calls > bound {
            return Err(format!("calls: compressing {} bytes in {} writes with output pattern {:?} took {} calls (bound {})", n, writes.len(), op.0, enc.calls, bound));
        }
        descs.push(format!("{:?}", op.0));
        c.checks += 1;
        if k > 0 {
            // the interleaving of the two sub-streams may differ, the content may not
            let r = decode(&enc.bytes, &Pat::big(), &Pat::big(), false, false)?;
            expect_decoded(&r, &d.bytes, enc.bytes.len(), "compressed with other output buffers")?;
        }
        if k == 1 {
            let mut e = Encoder::new(kind, o.opts);
            let again = encode_writes(&mut e, &writes, &op, lead)?;
            c.checks += 1;
            if again.bytes != enc.bytes {
                return Err(format!("nondeterminism: output buffers {:?}: compressing twice gave different streams: {}", op.0, diff(&enc.bytes, &again.bytes)));
            }
        }
        streams.push(enc.bytes);
    }
    let st = &streams[0];
    let mut bad = st.clone();
    let bit = c.s.usize(bad.len() * 8);
    bad[bit / 8] ^= 1 << (bit % 8);
    c.desc = format!("{:?} {} bytes, writes {:?}, encoder outputs {:?}, damaged bit {}, {}", kind, n, wp.0, descs, bit, o.desc);
    c.class(format!("{:?}", kind));
    p03_chunks(c, st, &bad, &d.bytes)
}

/// Every cut around the place where the entropy code of a sub-stream starts over.
fn p03_boundary(c: &mut Ctx) -> Result<(), String> {
    let Some(b) = crate::symgen::boundary(&mut c.s) else {
        c.class("no boundary");
        return Ok(());
    };
    c.desc = b.desc;
    c.class("entropy-code chunk boundary");
    c.nontrivial = true;
    let big = Pat::big();
    let mut cuts: Vec<(usize, usize)> = vec![(b.stream.len(), 1)];
    for d in 8..28 {
        cuts.push((b.at + d, 1 << 24));
    }
    for _ in 0..8 {
        let d = c.s.usize(64);
        let then = *c.s.pick(&[1usize << 24, 1, 3, 15, 17]);
        cuts.push(((b.at + d).saturating_sub(24), then));
    }
    for (cut, then) in cuts {
        let ip = Pat(if then > 64 { vec![cut, then] } else { std::iter::once(cut).chain(std::iter::repeat(then).take(40)).chain(std::iter::once(1 << 24)).collect() });
        let r = decode(&b.stream, &ip, &big, false, false)?;
        c.checks += 1;
        expect_decoded(&r, &b.out, b.stream.len(), &format!("split after {} bytes, then pieces of {}", cut, then))?;
    }
    let op = pat(&mut c.s, b.out.len(), 20000);
    let r = decode(&b.stream, &pat(&mut c.s, b.stream.len(), 20000), &op, false, false)?;
    c.checks += 1;
    expect_decoded(&r, &b.out, b.stream.len(), "split at random")
}

fn p03_chunks(c: &mut Ctx, st: &[u8], bad: &[u8], want: &[u8]) -> Result<(), String> {
    let n = want.len();
    for (which, stream) in [("valid", st), ("damaged", bad)] {
        let mut first: Option<Decoded> = None;
        let ends = muxed::reaches_end(stream);
        for k in 0..4 {
            let (ip, op, lead) = match k {
                0 => (Pat::big(), Pat::big(), 0),
                1 => (Pat::of(1), pat(&mut c.s, n, 20000), 3),
                2 => (pat(&mut c.s, stream.len(), 20000), if n < 3000 { Pat::of(1) } else { Pat::of(31) }, 0),
                _ => (pat(&mut c.s, stream.len(), 20000), pat(&mut c.s, n, 20000), c.s.usize(9)),
            };
            if ip.0.iter().chain(op.0.iter()).any(|x| *x < 16) && n >= 32 {
                c.nontrivial = true;
            }
            let mut dec = new_decoder(false, false);
            let r = decode_with(&mut dec, stream, &ip, &op, lead, 1 << 24)?;
            c.checks += 1;
            let mo = (op.0.iter().sum::<usize>() / op.0.len()).max(1);
            let mi = (ip.0.iter().sum::<usize>() / ip.0.len()).max(1);
            let bound = 64 + 8 * op.0.len() * (r.out.len() / mo + 1) + 8 * ip.0.len() * op.0.len() * (stream.len() / mi + 1) + r.out.len() / 16;
            if r.calls > bound && !r.limited {
                return Err(format!("calls: decoding {} bytes with in {:?} out {:?} took {} calls (bound {})", r.out.len(), ip.0, op.0, r.calls, bound));
            }
            match &first {
                None => {
                    if which == "valid" {
                        expect_decoded(&r, want, stream.len(), "valid")?;
                    }
                    first = Some(r);
                }
                Some(f) => {
                    if f.limited || r.limited {
                        continue;
                    }
                    // while one sub-stream waits for input, whether an error further on in the other is seen already
                    // depends on what has arrived: without an end marker "wants more" and "failure" are both right
                    let either = !ends && r.verdict != Verdict::Success && f.verdict != Verdict::Success;
                    if !either && std::mem::discriminant(&r.verdict) != std::mem::discriminant(&f.verdict) {
                        return Err(format!("chunking: {} stream, in {:?} out {:?}: verdict {:?} instead of {:?}", which, ip.0, op.0, r.verdict, f.verdict));
                    }
                    // without a completed stream the amount of output released so far may depend on buffers
                    let common = r.out.len().min(f.out.len());
                    if r.out[..common] != f.out[..common] {
                        return Err(format!("chunking: {} stream, in {:?} out {:?}: output differs: {}", which, ip.0, op.0, diff(&f.out, &r.out)));
                    }
                    if matches!(f.verdict, Verdict::Success) && (r.out.len() != f.out.len() || r.consumed != f.consumed) {
                        return Err(format!("chunking: {} stream, in {:?} out {:?}: {} bytes out {} read, instead of {} and {}", which, ip.0, op.0, r.out.len(), r.consumed, f.out.len(), f.consumed));
                    }
                }
            }
        }
    }
    c.class(size_tag(n));
    Ok(())
}

const P04_RULE: &str = "case = one valid stream and a set of damaged copies (single bits over every byte of header and trailer and sampled body positions, bursts of 2 to 32 bits, plus for tiny streams every single bit); each is decoded with checksums on; success is a violation unless the bytes are the original's and the damage left magic, window, checksum and tag fields meaningful; also damage with the checksum recomputed is decoded with checking on and off; non-trivial: at least 8 damaged copies of a stream holding at least one content byte";

fn p04(c: &mut Ctx) -> Result<(), String> {
    let kind = if c.s.chance(1, 2) { Kind::Internal } else { Kind::Hybrid };
    let lim = match c.s.weighted(&[6, 4, 2]) {
        0 => 60,
        1 => 1500,
        _ => 60_000,
    };
    let mut o = gen::options(&mut c.s, 10, 16, 9, kind == Kind::Hybrid);
    o.opts.window_size = Some(10 + c.s.below(7) as i32);
    let (st, want, desc, kind) = if c.s.chance(1, 5) {
        let (st, want, desc) = made_stream(c, lim)?;
        (st, want, desc, "other".to_string())
    } else {
        let d = gen::data(&mut c.s, lim);
        (compress(kind, o.opts, &d.bytes)?, d.bytes, o.desc, format!("{:?}", kind))
    };
    let nbits = st.len() * 8;
    let budget = if c.thorough { 80 } else { 40 };
    let mut muts: Vec<(usize, u32)> = vec![];
    // every bit of magic, window and trailer is drawn over the cases; a share here
    for _ in 0..budget {
        let pos = match c.s.weighted(&[3, 2, 2, 1]) {
            0 => c.s.usize(nbits),
            1 => nbits - 1 - c.s.usize(64.min(nbits)),
            2 => c.s.usize(16 * 8),
            _ => 16 * 8 + c.s.usize((64 * 8).min(nbits - 128)),
        };
        let width = match c.s.weighted(&[4, 3]) {
            0 => 1,
            _ => c.s.range(2, 32),
        };
        let mut m = if width == 1 { 1u32 } else { (c.s.below(1u64 << (width - 2)) as u32) << 1 | 1 };
        if width > 1 {
            m |= 1u32.checked_shl(width as u32 - 1).unwrap_or(0);
        }
        muts.push((pos, m));
    }
    let ip = pat(&mut c.s, st.len(), 200);
    c.desc = format!("{}, {} bytes in, stream {} bytes, {} damaged copies e.g. bit {} mask {:#x}, {}", kind, want.len(), st.len(), muts.len(), muts[0].0, muts[0].1, desc);
    c.nontrivial = !want.is_empty() && muts.len() >= 8;
    c.class(kind);
    c.class(size_tag(want.len()));
    // undamaged: must be accepted
    let r = decode(&st, &ip, &Pat::big(), false, false)?;
    expect_decoded(&r, &want, st.len(), "undamaged")?;
    for (pos, m) in muts {
        let mut b = st.clone();
        let mut changed = false;
        for k in 0..32 {
            if m >> k & 1 == 1 && pos + k < nbits {
                b[(pos + k) / 8] ^= 1 << ((pos + k) % 8);
                changed = true;
            }
        }
        if !changed {
            continue;
        }
        let mut dec = new_decoder(false, false);
        let r = decode_with(&mut dec, &b, &ip, &Pat::big(), 0, 4_000_000)?;
        c.checks += 1;
        let region = if pos / 8 < 16 {
            "header"
        } else if pos / 8 + 8 >= st.len() {
            "trailer"
        } else {
            "body"
        };
        if r.limited {
            c.class(format!("{}: output limit", region));
            continue;
        }
        c.class(format!("{}: {}", region, match r.verdict { Verdict::Success => "success", Verdict::Failure(_) => "failure", Verdict::WantsInput => "wants input" }));
        if r.verdict == Verdict::Success {
            if r.out != want {
                return Err(format!("accepted: stream damaged at bit {} mask {:#x} ({}) decoded successfully to different content: {}", pos, m, region, diff(&want, &r.out)));
            }
            // a CRC detects every burst of at most 32 bits over the bytes it covers, and the tag is compared
            let first = pos / 8;
            let last = (pos + 31 - m.leading_zeros() as usize).min(nbits - 1) / 8;
            let covered_end = st.len() - 8;
            if last < covered_end || first >= covered_end {
                return Err(format!("accepted: stream damaged at bit {} mask {:#x} ({}) was reported as successfully decoded", pos, m, region));
            }
        }
    }
    // Independent acceptance rule: whatever is accepted has a valid header, matching checksum and tag.
    // Damage with a recomputed checksum must still satisfy it (content may then differ).
    for _ in 0..4 {
        let mut b = st.clone();
        let n = b.len();
        let at = 16 + c.s.usize(n - 24);
        b[at] ^= 1 << c.s.below(8);
        let keep = c.s.chance(1, 2);
        if keep {
            let crc = crate::refs::crc32c(&b[..n - 8]);
            b[n - 8..n - 4].copy_from_slice(&crc.to_le_bytes());
        }
        let mut dec = new_decoder(false, false);
        let r = decode_with(&mut dec, &b, &ip, &Pat::big(), 0, 4_000_000)?;
        c.checks += 1;
        if r.verdict == Verdict::Success && !r.limited {
            let k = r.consumed;
            let ok = k >= 24 && b[..4] == [0xff, 0xe5, 0x8c, 0x9f] && crate::refs::crc32c(&b[..k - 8]).to_le_bytes() == b[k - 8..k - 4] && &b[k - 4..k] == b"ans~";
            if !ok {
                return Err(format!("accepted: success after {} bytes without a matching checksum and tag", k));
            }
        }
    }
    Ok(())
}

const P06_RULE: &str = "case = one valid stream (internal or hybrid compressor); proper prefixes of it (every length for streams under 200 bytes, all lengths near both ends and 40 sampled ones otherwise) are decoded in random chunks: the verdict must be a request for more input, the output a prefix of the original; the reader adaptor over a prefix, the writer adaptor's flush or close, must report an error; non-trivial: at least 10 prefixes of a stream holding content";

fn p06(c: &mut Ctx) -> Result<(), String> {
    let kind = if c.s.chance(1, 2) { Kind::Internal } else { Kind::Hybrid };
    let lim = match c.s.weighted(&[6, 4, 2]) {
        0 => 60,
        1 => 3000,
        _ => 80_000,
    };
    let o = gen::options(&mut c.s, 10, 16, 9, kind == Kind::Hybrid);
    let (st, want, desc, kind) = if c.s.chance(1, 5) {
        let (st, want, desc) = made_stream(c, lim)?;
        (st, want, desc, "other".to_string())
    } else {
        let d = gen::data(&mut c.s, lim);
        (compress(kind, o.opts, &d.bytes)?, d.bytes, o.desc, format!("{:?}", kind))
    };
    let n = st.len();
    let mut lens: Vec<usize> = vec![];
    if n < 120 {
        lens.extend(0..n);
    } else {
        lens.extend(0..18);
        lens.extend(n - 14..n);
        for _ in 0..24 {
            lens.push(c.s.usize(n));
        }
    }
    let ip = pat(&mut c.s, n, 300);
    let op = pat(&mut c.s, want.len(), 300);
    let skip = c.s.chance(1, 3);
    c.desc = format!("{} {} bytes in, stream {} bytes, {} prefixes, in {:?} out {:?} skip_crc {}, {}", kind, want.len(), n, lens.len(), ip.0, op.0, skip, desc);
    c.nontrivial = lens.len() >= 10 && !want.is_empty();
    c.class(kind);
    c.class(size_tag(want.len()));
    for (i, l) in lens.iter().enumerate() {
        let p = &st[..*l];
        let r = decode(p, &ip, &op, skip, false)?;
        c.checks += 1;
        match &r.verdict {
            Verdict::WantsInput => {}
            v => return Err(format!("truncated: prefix of {} of {} bytes gave verdict {:?}", l, n, v)),
        }
        if r.out.len() > want.len() || r.out[..] != want[..r.out.len()] {
            return Err(format!("truncated: prefix of {} of {} bytes produced bytes that are not a prefix of the original: {}", l, n, diff(&want, &r.out)));
        }
        if i % 3 == 0 || *l + 14 >= n {
            // reader adaptor
            let bufsz = *c.s.pick(&[1usize, 2, 7, 64, 4096]);
            let rd = *c.s.pick(&[1usize, 5, 100, 65536]);
            let (out, e) = crate::adapt::read_all(p, bufsz, rd, skip)?;
            c.checks += 1;
            if e.is_none() {
                return Err(format!("reader-eof: reader over a prefix of {} of {} bytes (buffer {}) ended cleanly after {} bytes", l, n, bufsz, out.len()));
            }
            if out.len() > want.len() || out[..] != want[..out.len()] {
                return Err(format!("truncated: reader over a prefix of {} bytes produced bytes that are not a prefix of the original", l));
            }
        }
    }
    Ok(())
}

const P12_RULE: &str = "case = option set x legal command sequence (literals, overlapping and window-distance copies, zero-length copies, dictionary words with every transform, block switches up to type 255, one case in 100 with copy lengths around every power of two up to 8 MiB, prediction modes with context maps, mixing values and speeds) x command batching x output-buffer pattern; encoded with the command interface and decoded (serial); oracle: byte-at-a-time interpretation; non-trivial: at least 3 commands of at least 2 kinds";

pub fn kinds(cs: &[lz::C]) -> u32 {
    let mut k = 0u32;
    for x in cs {
        k |= match x {
            lz::C::Lit(_, false) => 1,
            lz::C::Lit(_, true) => 2,
            lz::C::Copy { n: 0, .. } => 4,
            lz::C::Copy { d, n } if d < n => 8,
            lz::C::Copy { .. } => 16,
            lz::C::Dict { tr: 0, .. } => 32,
            lz::C::Dict { .. } => 64,
            lz::C::BL(..) => 128,
            lz::C::BC(_) => 256,
            lz::C::BD(_) => 512,
            lz::C::Pm(_) => 1024,
        };
    }
    k
}
const KIND_NAMES: [&str; 11] =
    ["literal", "high-entropy literal", "zero-length copy", "overlapping copy", "copy", "dict", "dict transform", "ltype", "ctype", "dtype", "prediction mode"];

fn p12(c: &mut Ctx) -> Result<(), String> {
    let big = c.s.chance(1, 8);
    let whi = if c.s.chance(1, 4) { 24 } else { 13 };
    let o = gen::options(&mut c.s, 10, whi, 9, false);
    let w = o.opts.window_size.unwrap_or(22).max(10).min(24) as u32;
    let huge = c.s.chance(1, 100);
    let max_out = if huge { c.s.range(1 << 20, 10 << 20) } else if big { 400_000 } else { 20_000 };
    let co = lz::CmdOpts { window: w, max_out, max_cmds: if huge { 30 } else if big { 400 } else { 60 }, meta: true, max_dist_slack: 16, huge };
    let (cs, want) = lz::commands(&mut c.s, &co);
    let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
    let bp = Pat(match c.s.usize(4) {
        0 => vec![1000],
        1 => vec![1],
        2 => vec![c.s.range(1, 5), c.s.range(1, 5)],
        _ => vec![0, c.s.range(1, 40), c.s.range(0, 3)],
    });
    let op = pat(&mut c.s, want.len(), 3000);
    let ip = pat(&mut c.s, want.len(), 3000);
    let dp = pat(&mut c.s, want.len(), 3000);
    c.desc = format!("[{}] batches {:?} out {:?} decode in {:?} out {:?}, {}", lz::brief(&cs), bp.0, op.0, ip.0, dp.0, o.desc);
    let k = kinds(&cs);
    c.nontrivial = cs.len() >= 3 && k.count_ones() >= 2;
    for (i, n) in KIND_NAMES.iter().enumerate() {
        if k >> i & 1 == 1 {
            c.class(*n);
        }
    }
    let mut e = Encoder::new(Kind::Internal, o.opts);
    let enc = encode_cmds(&mut e, &cmds, &bp, &op, 0)?;
    c.checks += 1;
    let dec = decode(&enc.bytes, &ip, &dp, c.s.chance(1, 4), false)?;
    expect_decoded(&dec, &want, enc.bytes.len(), "commands")
}

const P13_RULE: &str = "case = ring size 1 KiB to 64 KiB x legal command sequence x output-buffer size pattern (including empty and one-byte buffers), replayed through encode_cmd+flush or encode_commands of the recoder; oracle: byte-at-a-time interpretation over the whole history; non-trivial: output longer than the ring, or a chunk boundary inside a command";

fn p13(c: &mut Ctx) -> Result<(), String> {
    let nw = if c.s.chance(1, 6) { 7 } else { 3 };
    let w = 10 + c.s.below(nw) as u32;
    let co = lz::CmdOpts { window: w, max_out: c.s.logrange(100, 20_000), max_cmds: 80, meta: false, max_dist_slack: 1, huge: false };
    let (cs, want) = lz::commands(&mut c.s, &co);
    let mut op = pat(&mut c.s, want.len(), 8000);
    if op.0.len() == 1 && c.s.chance(1, 2) {
        op.0[0] = op.0[0].min(c.s.range(1, 2000));
    }
    let api = c.s.chance(1, 3);
    c.desc = format!("ring {} [{}] out {:?} via {}", 1 << w, lz::brief(&cs), op.0, if api { "encode_commands" } else { "encode_cmd" });
    c.nontrivial = want.len() > 1 << w || (want.len() > op.0[0] && cs.len() > 1);
    if want.len() > 1 << w {
        c.class("wraps ring");
    }
    let k = kinds(&cs);
    for (i, n) in KIND_NAMES.iter().enumerate() {
        if k >> i & 1 == 1 {
            c.class(*n);
        }
    }
    let mut rec: DivansRecodeState<RingVec> = DivansRecodeState::new(RingVec(vec![0u8; 1 << w]));
    let mut sink = Sink::new(&op, c.s.usize(5));
    c.checks += 1;
    if api {
        let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
        let mut off = 0;
        loop {
            let b = off;
            match sink.call(|o, oo| rec.encode_commands(&cmds, &mut off, o, oo))? {
                DivansOutputResult::Success => {
                    if off != cmds.len() {
                        return Err(format!("commands: success with {} of {} commands read", off, cmds.len()));
                    }
                    break;
                }
                DivansOutputResult::NeedsMoreOutput => sink.progress(off - b, "encode_commands")?,
                DivansOutputResult::Failure(m) => return Err(format!("replay-failure: {:?}", m)),
            }
        }
    } else {
        for x in &cs {
            let cmd = x.to_cmd();
            loop {
                match sink.call(|o, oo| rec.encode_cmd(&cmd, o, oo))? {
                    DivansOutputResult::Success => break,
                    DivansOutputResult::NeedsMoreOutput => sink.progress(0, "encode_cmd")?,
                    DivansOutputResult::Failure(m) => return Err(format!("replay-failure: {:?}", m)),
                }
            }
        }
    }
    loop {
        match sink.call(|o, oo| DivansRecodeState::flush(&mut rec, o, oo))? {
            DivansOutputResult::Success => break,
            DivansOutputResult::NeedsMoreOutput => sink.progress(0, "flush")?,
            DivansOutputResult::Failure(m) => return Err(format!("replay-failure: {:?}", m)),
        }
    }
    if sink.out != want {
        return Err(format!("replay: output differs from the direct interpretation: {}", diff(&want, &sink.out)));
    }
    if rec.num_bytes_encoded() != want.len() {
        return Err(format!("replay: reports {} bytes encoded, {} expected", rec.num_bytes_encoded(), want.len()));
    }
    Ok(())
}

#[derive(Default)]
pub struct RingVec(pub Vec<u8>);
impl divans::SliceWrapper<u8> for RingVec {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
impl divans::SliceWrapperMut<u8> for RingVec {
    fn slice_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

const P20_RULE: &str = "even cases: a stream is produced with a requested window in -5..=40 (or none) and its 16 header bytes are compared with the canonical ones (magic, clamped window), and data needing that window is decoded; odd cases: header bytes are replaced (magic byte, window byte over all 256 values, reserved bytes) and fed in random chunks: the decoder must fail before producing a byte exactly when magic or window is invalid; checksum-only damage must be accepted with skip_crc and refused without; non-trivial: every such case with at least one content byte";

const MAGIC: [u8; 4] = [0xff, 0xe5, 0x8c, 0x9f];

fn p20(c: &mut Ctx) -> Result<(), String> {
    let kind = if c.s.chance(1, 2) { Kind::Internal } else { Kind::Hybrid };
    let mut o = gen::options(&mut c.s, 10, 24, 9, false);
    let d = gen::data(&mut c.s, 1500);
    c.nontrivial = !d.bytes.is_empty();
    c.class(format!("{:?}", kind));
    if c.index % 2 == 0 {
        let req = match c.s.weighted(&[6, 2, 1]) {
            0 => Some(10 + c.s.below(15) as i32),
            1 => Some(c.s.below(46) as i32 - 5),
            _ => None,
        };
        // copies spanning the window need the decoder's ring to be as large as the header says
        let w = req.unwrap_or(22).max(10).min(24);
        let mut bytes = d.bytes.clone();
        let span = (1usize << w) - 64;
        let heavy = w <= 18 || c.s.chance(1, 6);
        if heavy && !bytes.is_empty() {
            let mut r = Rng::new(c.s.u64());
            bytes.truncate(900);
            let unit = bytes.clone();
            while bytes.len() < span.saturating_sub(unit.len()) {
                bytes.push(if w > 18 { (bytes.len() >> 9) as u8 } else { r.next() as u8 });
            }
            bytes.extend_from_slice(&unit);
            c.class("copy across window");
        }
        o.opts.window_size = req;
        o.opts.quality = Some(o.opts.quality.unwrap_or(5).min(if w > 18 { 6 } else { 9 }));
        c.desc = format!("{:?} requested window {:?}, {} bytes, {}", kind, req, bytes.len(), o.desc);
        let st = compress(kind, o.opts, &bytes)?;
        c.checks += 1;
        if st.len() < 24 || st[..4] != MAGIC {
            return Err(format!("header: stream of {} bytes does not begin with the magic number", st.len()));
        }
        if st[5] as i32 != w {
            return Err(format!("header: window byte {} for requested window {:?}", st[5], req));
        }
        let crc = crate::refs::crc32c(&st[..st.len() - 8]);
        if st[st.len() - 8..st.len() - 4] != crc.to_le_bytes() || &st[st.len() - 4..] != b"ans~" {
            return Err("trailer: checksum or tag of a produced stream is wrong".into());
        }
        let r = decode(&st, &pat(&mut c.s, st.len(), 500), &Pat::big(), false, false)?;
        return expect_decoded(&r, &bytes, st.len(), "window");
    }
    let st = compress(kind, o.opts, &d.bytes)?;
    let n = st.len();
    let ip = if c.s.chance(1, 2) { Pat::of(1) } else { pat(&mut c.s, n, 500) };
    let mode = c.s.usize(4);
    let mut b = st.clone();
    match mode {
        0 => {
            let at = c.s.usize(4);
            let x = 1 + c.s.below(255) as u8;
            b[at] ^= x;
            c.desc = format!("{:?} magic byte {} xor {:#x}, in {:?}", kind, at, x, ip.0);
            c.class("bad magic");
        }
        1 => {
            let w = c.s.byte();
            if (10..25).contains(&w) {
                return Ok(());
            }
            b[5] = w;
            c.desc = format!("{:?} window byte {}, in {:?}", kind, w, ip.0);
            c.class("bad window");
        }
        2 => {
            let at = n - 8 + c.s.usize(4);
            let x = 1 + c.s.below(255) as u8;
            b[at] ^= x;
            c.desc = format!("{:?} checksum byte {} xor {:#x}, in {:?}", kind, at, x, ip.0);
            c.class("bad checksum");
        }
        _ => {
            c.desc = format!("{:?} intact with skip_crc, in {:?}", kind, ip.0);
            c.class("intact");
        }
    }
    for skip in [false, true] {
        let r = decode(&b, &ip, &Pat::of(1 + c.s.usize(300)), skip, false)?;
        c.checks += 1;
        match mode {
            0 | 1 => {
                if !matches!(r.verdict, Verdict::Failure(_)) || !r.out.is_empty() {
                    return Err(format!("header: invalid header gave verdict {:?} and {} bytes (skip_crc {})", r.verdict, r.out.len(), skip));
                }
                if r.consumed > 16 + ip.0.iter().max().copied().unwrap_or(0) {
                    return Err(format!("header: invalid header noticed only after {} bytes", r.consumed));
                }
            }
            2 => {
                if skip {
                    expect_decoded(&r, &d.bytes, n, "checksum-only damage with skip_crc")?;
                } else if r.verdict == Verdict::Success || r.verdict == Verdict::WantsInput {
                    return Err(format!("checksum: wrong checksum gave verdict {:?}", r.verdict));
                }
            }
            _ => expect_decoded(&r, &d.bytes, n, "intact")?,
        }
    }
    Ok(())
}

const P21_RULE: &str = "case = a valid stream followed by 1 to 5000 trailing bytes (random, zeros, another stream, or trailer look-alikes), decoded serially in random chunks so that the end falls anywhere in a chunk; the decoder must stop exactly at the end, stay successful and idle on further calls with and without input, and the reader adaptor must end (clean end of file or error) in bounded reads having delivered the content; non-trivial: content and trailing bytes both present";

fn p21(c: &mut Ctx) -> Result<(), String> {
    let kind = if c.s.chance(1, 2) { Kind::Internal } else { Kind::Hybrid };
    let o = gen::options(&mut c.s, 10, 14, 9, kind == Kind::Hybrid);
    let lim = if c.s.chance(1, 6) { 60_000 } else { 800 };
    let (st, want, desc, kind) = if c.s.chance(1, 5) {
        let (st, want, desc) = made_stream(c, lim)?;
        (st, want, desc, "other".to_string())
    } else {
        let d = gen::data(&mut c.s, lim);
        (compress(kind, o.opts, &d.bytes)?, d.bytes, o.desc, format!("{:?}", kind))
    };
    let n = st.len();
    let mut t: Vec<u8> = vec![];
    match c.s.usize(4) {
        0 => {
            let l = c.s.logrange(1, 5000);
            gen::segment(&mut c.s, 2, l, &mut t)
        }
        1 => t.resize(c.s.logrange(1, 100), 0),
        2 => t.extend_from_slice(&st),
        _ => t.extend_from_slice(&st[n - 8 - c.s.usize(8.min(n - 24) + 1)..]),
    }
    let mut all = st.clone();
    all.extend_from_slice(&t);
    let ip = pat(&mut c.s, all.len(), 4000);
    let op = pat(&mut c.s, want.len(), 4000);
    c.desc = format!("{} {} bytes, stream {}, trailing {}, in {:?} out {:?}, {}", kind, want.len(), n, t.len(), ip.0, op.0, desc);
    c.nontrivial = !want.is_empty() && !t.is_empty();
    c.class(kind);
    let mut dec = new_decoder(false, false);
    let r = decode_with(&mut dec, &all, &ip, &op, 0, 1 << 24)?;
    c.checks += 1;
    expect_decoded(&r, &want, n, "trailing")?;
    for k in 0..5usize {
        let mut off = 0;
        let mut oo = 0;
        let mut buf = [0u8; 64];
        let inp: &[u8] = match k {
            0 => &[],
            1 | 2 => &t,
            _ => &st,
        };
        let olen = if k == 2 { 0 } else { 64 };
        use divans::Decompressor;
        let v = dec.decode(inp, &mut off, &mut buf[..olen], &mut oo);
        c.checks += 1;
        if !matches!(v, divans::DivansResult::Success) || off != 0 || oo != 0 {
            return Err(format!("after-end: call {} after success returned {}, read {} and wrote {} bytes", k, res_name(&v), off, oo));
        }
    }
    let bufsz = *c.s.pick(&[1usize, 3, 16, 100, 4096, 65536]);
    let rd = *c.s.pick(&[1usize, 17, 4096]);
    let (out, e) = crate::adapt::read_all(&all, bufsz, rd, false)?;
    c.checks += 1;
    if out != want {
        return Err(format!("reader: content before trailing bytes not delivered exactly: {} (end {:?})", diff(&want, &out), e));
    }
    c.key = Some(mix(mix(n as u64, t.len() as u64), mix(crate::src::hash_bytes(&all), ip.0.len() as u64)));
    Ok(())
}
