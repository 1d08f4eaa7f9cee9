//! Malformed streams (P05) and multithreaded decoding (P07).
use crate::drive::*;
use crate::gen::{self, pat, Pat};
use crate::lz::{self, C};
use crate::muxed;
use crate::symgen;
use crate::runner::{guarded, Ctx, Prop};
use crate::src::{hash_bytes, mix, Rng, Src};
use divans::{Decompressor, DivansResult};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P05", quick: 16000, thorough: 400_000, rule: P05_RULE, case: p05, cpu_limit: 60, spawns: false, mem_mb: 7000, exhaustive: false },
        Prop { id: "P07", quick: 6000, thorough: 300_000, rule: P07_RULE, case: p07, cpu_limit: 120, spawns: false, mem_mb: 12_000, exhaustive: false },
    ]
}

pub const P05_RULE: &str = "case = a hostile stream (random bytes after a valid or damaged header; a valid stream with bytes flipped, inserted, deleted, duplicated or spliced; re-multiplexed or damaged sub-streams; command sequences with illegal distances, dictionary words and block types put through the real encoder; streams chosen symbol by symbol: every field of every command, context maps up to and beyond their size; malformed chunk headers and end markers), checksum recomputed or not, x skip_crc x input/output chunking; the decoder is driven to a verdict or 4 MB of output, then called again with more input and with no space, then dropped; non-trivial: the stream has a valid header and is not a valid stream";

/// Illegal commands for the encoder to serialise.
fn illegal(s: &mut Src, w: u32) -> Vec<C> {
    let co = lz::CmdOpts { window: w, max_out: 3000, max_cmds: 20, meta: true, max_dist_slack: 16, huge: false };
    let (mut cs, _) = lz::commands(s, &co);
    let n = s.range(1, 4);
    for _ in 0..n {
        let at = s.usize(cs.len() + 1);
        let ring = 1u32 << w;
        let c = match s.usize(6) {
            0 => C::Copy { d: *s.pick(&[ring, ring - 1, ring - 15, ring + 1, 2 * ring, ring / 2, 0xffff, 0xff_ffff, 0x7fff_fff0, 0xffff_fff0, 1, 17]), n: s.logrange(0, 5000) as u32 },
            1 => C::Copy { d: 1 + s.logrange(0, 1 << 26) as u32, n: s.logrange(0, 1 << 22) as u32 },
            2 => C::Copy { d: 0, n: s.logrange(0, 50) as u32 },
            3 => C::Lit(vec![0; s.logrange(0, 70_000)], s.chance(1, 2)),
            4 => C::BL(s.byte(), s.byte()),
            _ => {
                let mut p = lz::pred_mode(s);
                for b in p.rest.iter_mut() {
                    if s.chance(1, 400) {
                        *b = s.byte();
                    }
                }
                C::Pm(p)
            }
        };
        cs.insert(at, c);
    }
    cs
}

/// A valid stream from either encoder, or (rarely) from illegal commands.
pub fn some_stream(c: &mut Ctx, lim: usize) -> Result<(Vec<u8>, &'static str), String> {
    let w = 10 + c.s.below(6) as i32;
    let mut o = gen::options(&mut c.s, w, w, 9, false);
    o.opts.window_size = Some(w);
    Ok(match c.s.weighted(&[4, 4, 4]) {
        0 => {
            let d = gen::data(&mut c.s, lim);
            (compress(Kind::Internal, o.opts, &d.bytes)?, "internal")
        }
        1 => {
            let d = gen::data(&mut c.s, lim);
            o.opts.quality = Some(o.opts.quality.unwrap_or(5).min(7));
            (compress(Kind::Hybrid, o.opts, &d.bytes)?, "hybrid")
        }
        _ => {
            let co = lz::CmdOpts { window: w as u32, max_out: lim, max_cmds: 40, meta: true, max_dist_slack: 16, huge: false };
            let (cs, _) = lz::commands(&mut c.s, &co);
            let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
            let mut e = Encoder::new(Kind::Internal, o.opts);
            (encode_cmds(&mut e, &cmds, &Pat::big(), &Pat::big(), 0)?.bytes, "commands")
        }
    })
}

pub fn damage(s: &mut Src, b: &mut Vec<u8>, lo: usize) {
    let n = s.range(1, 4);
    for _ in 0..n {
        if b.len() <= lo {
            return;
        }
        let at = lo + s.usize(b.len() - lo);
        match s.usize(7) {
            0 => b[at] ^= 1 << s.below(8),
            1 => b[at] = s.byte(),
            2 => {
                let v = s.byte();
                b.insert(at, v)
            }
            3 => {
                let e = (at + s.logrange(1, 200)).min(b.len());
                b.drain(at..e);
            }
            4 => {
                let e = (at + s.logrange(1, 200)).min(b.len());
                let seg: Vec<u8> = b[at..e].to_vec();
                let to = lo + s.usize(b.len() - lo);
                for (i, x) in seg.into_iter().enumerate() {
                    b.insert(to + i, x);
                }
            }
            5 => {
                let e = (at + s.logrange(1, 100)).min(b.len());
                let mut r = Rng::new(s.u64());
                for x in &mut b[at..e] {
                    *x = r.next() as u8;
                }
            }
            _ => {
                let v = *s.pick(&[0xffu8, 0xfe, 0, 1, 15, 16, 17, 0xf0, 0xf1]);
                b[at] = v
            }
        }
    }
}

pub fn header(s: &mut Src) -> Vec<u8> {
    let mut h = vec![0xff, 0xe5, 0x8c, 0x9f, 0, 22];
    h.resize(16, 0);
    h[5] = 10 + s.below(7) as u8;
    if s.chance(1, 10) {
        h[5] = 10 + s.below(15) as u8;
    }
    if s.chance(1, 12) {
        let at = s.usize(16);
        h[at] = s.byte();
    }
    h
}

/// A hostile stream and how it was made.
pub fn hostile(c: &mut Ctx) -> Result<(Vec<u8>, String), String> {
    let lim = match c.s.weighted(&[5, 3, 1]) {
        0 => 200,
        1 => 3000,
        _ => 40_000,
    };
    let kind = c.s.weighted(&[3, 5, 4, 4, 3, 6]);
    let recrc = c.s.chance(2, 3);
    let fix = |mut b: Vec<u8>| -> Vec<u8> {
        if recrc && b.len() > 24 {
            let n = b.len();
            let crc = crate::refs::crc32c(&b[..n - 8]);
            b[n - 8..n - 4].copy_from_slice(&crc.to_le_bytes());
            b[n - 4..].copy_from_slice(b"ans~");
        }
        b
    };
    Ok(match kind {
        0 => {
            // random sub-streams in well-formed framing, or raw random bytes
            let mut h = header(&mut c.s);
            let k = c.s.usize(gen::SEG_NAMES.len());
            let mut r = vec![];
            let l = c.s.logrange(0, lim);
            gen::segment(&mut c.s, k, l, &mut r);
            if c.s.chance(1, 3) {
                h.extend_from_slice(&r);
                (h, format!("header and {} raw {} bytes", r.len(), gen::SEG_NAMES[k]))
            } else {
                let k2 = c.s.usize(gen::SEG_NAMES.len());
                let mut r2 = vec![];
                let l2 = c.s.logrange(0, lim);
                gen::segment(&mut c.s, k2, l2, &mut r2);
                let body = muxed::remux(&[r, r2], &mut || (c.s.usize(2), c.s.logrange(1, 4000)));
                (muxed::wrap(&h, &body), format!("framed sub-streams of {} {} and {} {} bytes", l, gen::SEG_NAMES[k], l2, gen::SEG_NAMES[k2]))
            }
        }
        1 => {
            let (mut st, what) = some_stream(c, lim)?;
            let lo = if c.s.chance(1, 10) { 0 } else { 16 };
            damage(&mut c.s, &mut st, lo);
            (fix(st), format!("damaged {} stream", what))
        }
        2 => {
            let (st, what) = some_stream(c, lim)?;
            let mut sub = match muxed::demux(&st) {
                Some(x) => x,
                None => return Err("container: a produced stream does not follow the container format".into()),
            };
            let which = c.s.usize(3);
            if which != 1 {
                damage(&mut c.s, &mut sub[0], 0);
            }
            if which != 0 {
                damage(&mut c.s, &mut sub[1], 0);
            }
            let mut h = st[..16].to_vec();
            if c.s.chance(1, 3) {
                h[5] = 10 + c.s.below(15) as u8;
            }
            let maxc = c.s.logrange(1, 3000);
            let body = muxed::remux(&sub, &mut || (c.s.usize(2), 1 + c.s.usize(maxc)));
            (muxed::wrap(&h, &body), format!("{} stream with damaged sub-stream {}", what, which))
        }
        3 => {
            let w = 10 + c.s.below(5) as u32;
            let cs = illegal(&mut c.s, w);
            let mut o = gen::options(&mut c.s, 10, 10, 9, false);
            o.opts.window_size = Some(w as i32);
            let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
            let r = guarded(|| {
                let mut e = Encoder::new(Kind::Internal, o.opts);
                encode_cmds(&mut e, &cmds, &Pat::of(1), &Pat::big(), 0)
            });
            match r {
                Ok(e) => {
                    let mut st = e.bytes;
                    if c.s.chance(1, 3) {
                        // a larger or smaller window than the commands were written for
                        st[5] = 10 + c.s.below(8) as u8;
                        let n = st.len();
                        let crc = crate::refs::crc32c(&st[..n - 8]);
                        st[n - 8..n - 4].copy_from_slice(&crc.to_le_bytes());
                    }
                    (st, format!("window {} illegal commands [{}]", w, lz::brief(&cs)))
                }
                Err(_) => {
                    c.class("encoder refused the commands");
                    let (mut st, what) = some_stream(c, lim)?;
                    damage(&mut c.s, &mut st, 16);
                    (fix(st), format!("damaged {} stream", what))
                }
            }
        }
        5 => {
            let long = if c.s.chance(1, 40) { symgen::boundary(&mut c.s) } else { None };
            let (mut st, desc) = match long {
                Some(b) => {
                    c.class("entropy-code chunk boundary");
                    (b.stream, b.desc)
                }
                None => {
                    let m = symgen::stream(&mut c.s, 3_000_000);
                    (m.stream, m.desc)
                }
            };
            if c.s.chance(1, 6) {
                st[5] = 10 + c.s.below(15) as u8;
            }
            if c.s.chance(1, 8) {
                let lo = 16;
                damage(&mut c.s, &mut st, lo);
            }
            (fix(st), desc)
        }
        _ => {
            // framing-level malformation of a valid stream
            let (st, what) = some_stream(c, lim)?;
            let sub = muxed::demux(&st).ok_or("container: a produced stream does not follow the container format")?;
            let maxc = c.s.logrange(1, 300);
            let mut body = muxed::remux(&sub, &mut || (c.s.usize(2), 1 + c.s.usize(maxc)));
            let how = c.s.usize(6);
            match how {
                0 => {
                    // partial end markers at chunk boundaries and elsewhere
                    let at = if c.s.chance(1, 2) { body.len() } else { c.s.usize(body.len() + 1) };
                    let m: &[u8] = *c.s.pick(&[&[0xffu8][..], &[0xff, 0xff], &[0xff, 0xfe], &[0xff, 0xfe, 0], &[0xff, 0, 0, 0, 1], &[0xfe], &[0xff, 0xfe, 0xff]]);
                    for (i, x) in m.iter().enumerate() {
                        body.insert(at + i, *x);
                    }
                }
                1 => {
                    for b in body.iter_mut().take(3) {
                        *b = c.s.byte();
                    }
                }
                2 => {
                    // huge announced chunk at the end
                    body.push(*c.s.pick(&[0x10u8, 0x21, 0x30, 0x41, 0x51, 0x90, 0xb1, 0xc0, 0xd1, 0xe0, 0xef, 0xf0, 0xfd]));
                }
                3 => body.truncate(c.s.usize(body.len() + 1)),
                4 => {
                    let n = c.s.logrange(1, 3000);
                    for i in 0..n {
                        body.extend_from_slice(&[(i & 1) as u8, 0, 0, 0x55]);
                    }
                }
                _ => {
                    body.extend_from_slice(&body.clone());
                }
            }
            (muxed::wrap(&st[..16], &body), format!("{} stream with framing change {}", what, how))
        }
    })
}

fn p05(c: &mut Ctx) -> Result<(), String> {
    let (st, how) = hostile(c)?;
    let skip = c.s.chance(1, 2);
    let ip = pat(&mut c.s, st.len(), 1500);
    let op = pat(&mut c.s, 4_000_000, 6000);
    c.desc = format!("{}: {} bytes, in {:?} out {:?} skip_crc {}", how, st.len(), ip.0, op.0, skip);
    c.class(how.split(|x: char| x == '[' || x.is_ascii_digit()).next().unwrap_or("").trim().to_string());
    c.key = Some(mix(hash_bytes(&st), skip as u64));
    c.nontrivial = st.len() >= 16 && st[..4] == [0xff, 0xe5, 0x8c, 0x9f] && (10..25).contains(&st[5]);
    let mut dec = new_decoder(skip, false);
    let r = decode_with(&mut dec, &st, &ip, &op, 0, 4_000_000)?;
    c.checks += 1;
    c.class(if r.limited {
        "=> output limit"
    } else {
        match &r.verdict {
            Verdict::Success => "=> success",
            Verdict::Failure(_) => "=> failure",
            Verdict::WantsInput => "=> wants input",
        }
    });
    // further calls after any verdict
    let failed = matches!(r.verdict, Verdict::Failure(_));
    let more: Vec<u8> = st.iter().rev().take(300).copied().collect();
    for k in 0..6usize {
        let mut off = 0;
        let mut oo = 0;
        let mut buf = [0u8; 256];
        let inp: &[u8] = if k % 2 == 0 { &[] } else { &more };
        let olen = [256usize, 256, 0, 0, 1, 7][k];
        let v = dec.decode(inp, &mut off, &mut buf[..olen], &mut oo);
        c.checks += 1;
        if off > inp.len() || oo > olen {
            return Err(format!("offset: call after the end moved offsets to {} of {} and {} of {}", off, inp.len(), oo, olen));
        }
        if failed && matches!(v, DivansResult::Success) {
            return Err(format!("after-failure: a call after {:?} reported success", r.verdict));
        }
    }
    if c.s.chance(1, 2) {
        dec.free_ref();
        c.class("freed");
    }
    Ok(())
}

pub const P07_RULE: &str = "case = a stream (valid from either encoder or a command sequence, truncated, damaged or otherwise hostile) x chunkings for both decoders x pauses between calls x CPU placement of the two threads x the call after which the multithreaded decoder is freed, dropped or driven on; oracle: the serial decoder (success or not, and the bytes), no stall, every free or drop returns, no thread is left behind; non-trivial: the stream's header is valid and the multithreaded decoder started its worker";

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}

/// Confines this thread, and the threads it starts, to one of its CPUs while alive.
pub struct OneCpu(Option<[u64; 16]>);
impl OneCpu {
    pub fn new(on: bool, which: usize) -> OneCpu {
        if !on {
            return OneCpu(None);
        }
        let mut m = [0u64; 16];
        unsafe {
            if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 {
                return OneCpu(None);
            }
            let set: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
            if set.is_empty() {
                return OneCpu(None);
            }
            let c = set[which % set.len()];
            let mut one = [0u64; 16];
            one[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
        OneCpu(Some(m))
    }
}
impl Drop for OneCpu {
    fn drop(&mut self) {
        if let Some(m) = &self.0 {
            unsafe {
                sched_setaffinity(0, 128, m.as_ptr());
            }
        }
    }
}

struct Paused<'a> {
    d: &'a mut Dec,
    r: Rng,
    style: usize,
}
impl Decompressor for Paused<'_> {
    fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        match self.style {
            0 => {}
            1 => std::thread::yield_now(),
            2 => {
                if self.r.next() % 4 == 0 {
                    std::thread::yield_now()
                }
            }
            _ => {
                if self.r.next() % 16 == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(self.r.next() % 120))
                }
            }
        }
        self.d.decode(i, io, o, oo)
    }
}

pub fn p07_stream(c: &mut Ctx, sizes: &[u32]) -> Result<(Vec<u8>, String), String> {
    let lim = match c.s.weighted(sizes) {
        0 => 300,
        1 => 6000,
        _ => 100_000,
    };
    Ok(match c.s.weighted(&[5, 3, 3]) {
        0 => {
            let (st, what) = some_stream(c, lim)?;
            if c.s.chance(1, 3) {
                // same sub-streams, other chunk boundaries: the worker gets its input in other portions
                let sub = muxed::demux(&st).ok_or("container: a produced stream does not follow the container format")?;
                let maxc = c.s.logrange(1, 500);
                let lead = c.s.usize(3);
                let body = muxed::remux(&sub, &mut || (if lead < 2 && c.s.chance(3, 4) { lead } else { c.s.usize(2) }, 1 + c.s.usize(maxc)));
                (muxed::wrap(&st[..16], &body), format!("re-framed {} stream", what))
            } else {
                (st, format!("{} stream", what))
            }
        }
        1 => {
            let (mut st, what) = some_stream(c, lim)?;
            let at = if c.s.chance(1, 2) { c.s.usize(st.len()) } else { st.len() - 1 - c.s.logrange(0, st.len() - 1) };
            st.truncate(at);
            (st, format!("truncated {} stream", what))
        }
        _ => hostile(c)?,
    })
}

pub fn p07(c: &mut Ctx) -> Result<(), String> {
    let (st, how) = p07_stream(c, &[4, 4, 2])?;
    let skip = c.s.chance(1, 3);
    let sip = pat(&mut c.s, st.len(), 300);
    let sop = pat(&mut c.s, 1_000_000, 2000);
    let limit = 1_000_000;
    let mut ser = new_decoder(skip, false);
    let a = decode_with(&mut ser, &st, &sip, &sop, 0, limit)?;
    ser.free_ref();
    drop(ser);
    let rounds = 1 + c.s.usize(3);
    let mut what = vec![];
    c.class(how.split(|x: char| x == '[' || x.is_ascii_digit()).next().unwrap_or("").trim().to_string());
    c.key = Some(mix(hash_bytes(&st), skip as u64));
    c.nontrivial = st.len() > 16 && st[..4] == [0xff, 0xe5, 0x8c, 0x9f] && (10..25).contains(&st[5]);
    for _ in 0..rounds {
        let ip = pat(&mut c.s, st.len(), 300);
        let op = pat(&mut c.s, 1_000_000, 2000);
        let style = c.s.usize(4);
        let one = c.s.chance(1, 3);
        let cpu = c.s.usize(64);
        let rseed = c.s.u64();
        let stop = if c.s.chance(1, 2) { Some((c.s.logrange(0, 40), c.s.logrange(0, st.len()))) } else { None };
        let fin = c.s.usize(3);
        let base = threads();
        what.push(format!("in {:?} out {:?} pause {} one-cpu {} stop {:?} end {}", ip.0, op.0, style, one, stop, ["drop", "free_ref", "free"][fin]));
        c.desc = format!("{}: {} bytes, skip_crc {}; serial {:?} with {} bytes; {}", how, st.len(), skip, a.verdict, a.out.len(), what.join("; "));
        let guard = OneCpu::new(one, cpu);
        let mut par = new_decoder(skip, true);
        match stop {
            Some((calls, bytes)) => {
                // a few calls over the first part of the stream, then away with it
                let mut left = &st[..bytes];
                let mut buf = vec![0u8; 70_000];
                let mut i = 0;
                let mut p = Paused { d: &mut par, r: Rng::new(rseed), style };
                let mut got: Vec<u8> = vec![];
                while i < calls {
                    let n = ip.at(i).min(left.len());
                    let m = op.at(i).min(buf.len());
                    let mut io = 0;
                    let mut oo = 0;
                    let v = p.decode(&left[..n], &mut io, &mut buf[..m], &mut oo);
                    if io > n || oo > m {
                        return Err(format!("offset: parallel decoder moved offsets to {} of {} and {} of {}", io, n, oo, m));
                    }
                    got.extend_from_slice(&buf[..oo]);
                    left = &left[io..];
                    i += 1;
                    if matches!(v, DivansResult::Failure(_)) && !c.s.chance(1, 2) {
                        break;
                    }
                }
                let n = got.len().min(a.out.len());
                c.checks += 1;
                if got[..n] != a.out[..n] {
                    return Err(format!("parallel-bytes: parallel output differs from serial output: {}", diff(&got[..n], &a.out[..n])));
                }
                c.class("stopped early");
            }
            None => {
                let mut p = Paused { d: &mut par, r: Rng::new(rseed), style };
                let b = decode_with(&mut p, &st, &ip, &op, 0, limit)?;
                c.checks += 1;
                if !a.limited && !b.limited {
                    if (a.verdict == Verdict::Success) != (b.verdict == Verdict::Success) {
                        return Err(format!("parallel-verdict: serial decoder says {:?}, parallel decoder says {:?}", a.verdict, b.verdict));
                    }
                    if a.verdict == Verdict::Success && (a.out != b.out || a.consumed != b.consumed) {
                        return Err(format!("parallel-bytes: parallel result differs from serial: {}, {} and {} bytes read", diff(&b.out, &a.out), b.consumed, a.consumed));
                    }
                }
                let n = b.out.len().min(a.out.len());
                if b.out[..n] != a.out[..n] {
                    return Err(format!("parallel-bytes: parallel output differs from serial output: {}", diff(&b.out, &a.out)));
                }
                c.class(match b.verdict {
                    Verdict::Success => "=> success",
                    Verdict::Failure(_) => "=> failure",
                    Verdict::WantsInput => "=> wants input",
                });
            }
        }
        match fin {
            0 => drop(par),
            1 => {
                par.free_ref();
                drop(par)
            }
            _ => drop(par.free()),
        }
        drop(guard);
        // the worker leaves on its own; give it time
        let t0 = std::time::Instant::now();
        while threads() > base {
            std::thread::sleep(std::time::Duration::from_micros(200));
            if t0.elapsed().as_secs() > 20 {
                return Err("worker-leak: a decoder thread is still there 20 s after the decoder was freed".into());
            }
        }
        c.checks += 1;
    }
    Ok(())
}
