//! P09 (multiplexer) and P15 (reader/writer adaptors under I/O faults).
use crate::drive::*;
use crate::gen::{self, pat, Pat};
use crate::muxed;
use crate::props::core::split;
use crate::runner::{Ctx, Prop};
use crate::src::{Rng, Src};
use alloc_stdlib::HeapAlloc;
use divans::interface::{StreamDemuxer, StreamMuxer};
use divans::mux::Mux;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P09", quick: 500000, thorough: 20000000, rule: P09_RULE, case: p09, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false },
        Prop { id: "P15", quick: 10000, thorough: 400000, rule: P15_RULE, case: p15, cpu_limit: 120, spawns: false, mem_mb: 4000, exhaustive: false },
    ]
}

const P09_RULE: &str = "case = a history of pushes (push_data, StreamMuxer::write, write_buffer; 0 to 200 KB each, sizes drawn around the chunk-size thresholds) to the two sub-streams, interleaved with linearise calls into buffers of any size, then flush to the end marker (or the same content framed by an independent multiplexer using every legal chunk header); the linear bytes plus trailing junk are re-chunked into a fresh demultiplexer, interleaved with peek/consume/read_buffer; the reference is two byte vectors and an independent frame parser, compared after every call; one case in five is instead a push/consume history over the buffers as byte queues, with consumed amounts around the limits at which data is moved; non-trivial: both sub-streams non-empty, or a linearise call before the flush produced bytes, or a partial consume";

/// Incremental reference parser for the framing.
#[derive(Clone)]
struct RefDemux {
    avail: [usize; 2],
    hdr: Vec<u8>,
    left: usize,
    id: usize,
    eof: usize,
}
impl RefDemux {
    fn new() -> RefDemux {
        RefDemux { avail: [0; 2], hdr: vec![], left: 0, id: 0, eof: 0 }
    }
    /// Returns bytes used.
    fn feed(&mut self, b: &[u8]) -> usize {
        let mut i = 0;
        while i < b.len() && self.eof < 3 {
            if self.left > 0 {
                let n = self.left.min(b.len() - i);
                self.avail[self.id] += n;
                self.left -= n;
                i += n;
                continue;
            }
            let x = b[i];
            i += 1;
            if self.eof > 0 {
                self.eof += 1;
                continue;
            }
            if self.hdr.is_empty() {
                if x == 0xff {
                    self.eof = 1;
                } else if x >= 16 {
                    self.id = (x & 1) as usize;
                    self.left = 1024usize << ((x >> 4) << 1);
                } else {
                    self.hdr.push(x);
                }
            } else if self.hdr.len() == 1 {
                self.hdr.push(x);
            } else {
                self.id = (self.hdr[0] & 1) as usize;
                self.left = (self.hdr[1] as usize | (x as usize) << 8) + 1;
                self.hdr.clear();
            }
        }
        i
    }
}

fn push_size(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[4, 3, 4, 3, if big { 2 } else { 0 }]) {
        0 => s.range(0, 3),
        1 => s.range(250, 260),
        2 => s.logrange(0, 3000),
        3 => {
            let b = *s.pick(&[16usize, 509, 1024, 4096, 8192, 16384]);
            (b + s.range(0, 6)).saturating_sub(3)
        }
        _ => {
            let b = *s.pick(&[32768usize, 65536, 65537, 65539, 131073, 131080, 200_000]);
            (b + s.range(0, 6)).saturating_sub(3)
        }
    }
}
fn buf_size(s: &mut Src) -> usize {
    match s.weighted(&[3, 3, 3, 3]) {
        0 => 70000,
        1 => s.range(1, 5),
        2 => s.logrange(0, 20000),
        _ => *s.pick(&[0usize, 1, 2, 3, 4, 15, 16, 17, 19, 4096, 4097, 16384, 16385, 65536, 65537, 65540, 140000]),
    }
}

fn p09(c: &mut Ctx) -> Result<(), String> {
    let mut m8 = HeapAlloc::<u8>::new(0);
    let mut sub = [Vec::<u8>::new(), Vec::<u8>::new()];
    let mut linear: Vec<u8> = vec![];
    let mut r = Rng::new(c.s.u64());
    let big = c.s.chance(1, 4);
    let mut early = 0usize;
    let mut ops = String::new();
    if c.s.chance(1, 5) {
        return queue(c);
    }
    if c.s.chance(1, 6) {
        // independent framing with every legal header form
        c.class("reference framing");
        let n = c.s.range(0, 12);
        for _ in 0..n {
            let id = c.s.usize(2);
            let len;
            if c.s.chance(1, 3) {
                let k = if big { c.s.range(1, 3) } else { 1 + c.s.usize(2) } as u8;
                // any low bits besides the stream id are ignored by the format
                let low = if c.s.chance(1, 4) { (c.s.usize(8) as u8) << 1 } else { 0 };
                linear.push(id as u8 | low | k << 4);
                len = 1024usize << (k << 1);
            } else {
                len = push_size(&mut c.s, big).max(1).min(65536);
                let low = if c.s.chance(1, 4) { (c.s.usize(8) as u8) << 1 } else { 0 };
                linear.extend_from_slice(&[id as u8 | low, (len - 1) as u8, ((len - 1) >> 8) as u8]);
            }
            for _ in 0..len {
                let b = if r.below(3) == 0 { 0xff - r.below(2) as u8 } else { r.next() as u8 };
                sub[id].push(b);
                linear.push(b);
            }
        }
        linear.extend_from_slice(&muxed::EOF);
        ops = format!("{} reference frames", n);
    } else {
        let mut m = Mux::<HeapAlloc<u8>>::default();
        let n = match c.s.weighted(&[4, 3, 1]) {
            0 => c.s.range(0, 8),
            1 => c.s.range(8, 40),
            _ => c.s.range(40, 120),
        };
        let bias = c.s.usize(3);
        let mut max_total = if c.thorough { 3_000_000 } else { 1_200_000 };
        if !big {
            max_total = 250_000;
        }
        for _ in 0..n {
            if sub[0].len() + sub[1].len() > max_total {
                break;
            }
            let k = c.s.weighted(&[6, 2, 3, 5]);
            let id = match bias {
                0 => c.s.usize(2),
                1 => c.s.weighted(&[9, 1]),
                _ => c.s.weighted(&[1, 9]),
            };
            match k {
                0 | 1 => {
                    let len = push_size(&mut c.s, big);
                    let d: Vec<u8> = (0..len).map(|_| if r.below(4) == 0 { 0xff - r.below(2) as u8 } else { r.next() as u8 }).collect();
                    if k == 0 {
                        m.push_data(id as u8, &d, &mut m8);
                    } else {
                        let w = StreamMuxer::write(&mut m, id as u8, &d, &mut m8);
                        if w != d.len() {
                            return Err(format!("write: returned {} for {} bytes", w, d.len()));
                        }
                    }
                    sub[id].extend_from_slice(&d);
                    if ops.len() < 400 {
                        ops += &format!("push{} {} ", id, len);
                    }
                }
                2 => {
                    // fill the exposed write windows, as the codec does
                    let wb = m.write_buffer(&mut m8);
                    for (i, w) in wb.into_iter().enumerate() {
                        let room = w.data.len() - *w.write_offset;
                        if room < 16 {
                            return Err(format!("write_buffer: only {} bytes of room", room));
                        }
                        let n = c.s.usize(room.min(40) + 1);
                        for _ in 0..n {
                            let b = r.next() as u8;
                            w.data[*w.write_offset] = b;
                            *w.write_offset += 1;
                            sub[i].push(b);
                        }
                    }
                    if ops.len() < 400 {
                        ops += "wbuf ";
                    }
                }
                _ => {
                    let len = buf_size(&mut c.s);
                    let mut b = vec![0x5au8; len + 4];
                    let n = m.linearize(&mut b[..len]);
                    if n > len {
                        return Err(format!("linearize: {} of {}", n, len));
                    }
                    if b[n.min(len)..].iter().any(|x| *x != 0x5a) {
                        return Err("linearize: bytes beyond the reported count were written".into());
                    }
                    early += n;
                    linear.extend_from_slice(&b[..n]);
                    if ops.len() < 400 {
                        ops += &format!("lin {}->{} ", len, n);
                    }
                }
            }
            c.checks += 1;
        }
        let fp = pat(&mut c.s, sub[0].len() + sub[1].len(), 20000);
        let mut i = 0;
        let mut idle = 0;
        while !m.wrote_eof() {
            let len = fp.at(i);
            i += 1;
            let mut b = vec![0x5au8; len];
            let n = m.flush(&mut b);
            if n > len || b[n.min(len)..].iter().any(|x| *x != 0x5a) {
                return Err(format!("flush: {} of {} or wrote beyond", n, len));
            }
            linear.extend_from_slice(&b[..n]);
            if n == 0 && len > 0 {
                idle += 1;
                if idle > 3 {
                    return Err("flush: no progress".into());
                }
            }
        }
        let mut b = [0x5au8; 64];
        let n = m.flush(&mut b);
        if n != 0 {
            return Err(format!("flush: produced {} bytes after the end marker", n));
        }
        m.free_mux(&mut m8);
    }
    c.desc = format!("streams {} and {} bytes, linear {}, early {}: {}", sub[0].len(), sub[1].len(), linear.len(), early, ops);
    c.nontrivial = (!sub[0].is_empty() && !sub[1].is_empty()) || early > 0;
    if early > 0 {
        c.class("linearised before flush");
    }
    // the framing must itself be valid and carry exactly the pushed bytes
    {
        let mut full = vec![0u8; 16];
        full.extend_from_slice(&linear);
        full.extend_from_slice(&[0u8; 8]);
        match muxed::demux(&full) {
            None => return Err("framing: the linear bytes are not a well-formed frame sequence with an end marker".into()),
            Some(g) => {
                for k in 0..2 {
                    same(&g[k], &sub[k]).map_err(|e| format!("framing: sub-stream {} {}", k, e))?;
                }
            }
        }
    }
    // demultiplex
    let mut junk = vec![0u8; c.s.usize(12)];
    for b in junk.iter_mut() {
        *b = if r.below(2) == 0 { 0xff - r.below(2) as u8 } else { r.next() as u8 };
    }
    let mut fed = linear.clone();
    fed.extend_from_slice(&junk);
    let mut d = Mux::<HeapAlloc<u8>>::default();
    if c.s.chance(1, 3) {
        let n = *c.s.pick(&[1usize, 16, 512, 4096, 65536]);
        d.prealloc(&mut m8, n);
    }
    let ip = pat(&mut c.s, fed.len(), 6000);
    let take_rate = c.s.usize(4) as u64; // 0: only at the end
    let mut got = [Vec::<u8>::new(), Vec::<u8>::new()];
    let mut rf = RefDemux::new();
    let mut at = 0;
    let mut i = 0;
    while at < fed.len() {
        let len = ip.at(i).min(fed.len() - at);
        i += 1;
        let n = d.write_linear(&fed[at..at + len], &mut m8);
        let want = rf.feed(&fed[at..at + len]);
        c.checks += 1;
        if n != want {
            return Err(format!("consumed: write_linear took {} of {} bytes at {}, expected {} (marker ends at {})", n, len, at, want, linear.len()));
        }
        at += n;
        if d.encountered_eof() != (at == linear.len()) {
            return Err(format!("eof: encountered_eof is {} after {} of {} bytes", d.encountered_eof(), at, linear.len()));
        }
        for k in 0..2 {
            let have = got[k].len() + d.data_ready(k as u8);
            if have != rf.avail[k] {
                return Err(format!("available: sub-stream {} offers {} bytes, {} were fed", k, have, rf.avail[k]));
            }
        }
        if take_rate > 0 && r.below(take_rate) == 0 {
            let k = r.below(2) as usize;
            take(&mut d, k, &mut got, &mut r, false)?;
        }
        let empty = d.data_ready(0) == 0 && d.data_ready(1) == 0;
        if d.consumed_all_streams_until_eof() != (empty && at >= linear.len()) {
            return Err(format!("eof: consumed_all_streams_until_eof is {} with empty {} at {} of {}", d.consumed_all_streams_until_eof(), empty, at, linear.len()));
        }
        if n < len || (n == 0 && len > 0) {
            break;
        }
    }
    if at != linear.len() {
        return Err(format!("consumed: {} bytes consumed, stream has {}", at, linear.len()));
    }
    for k in 0..2 {
        while d.data_ready(k as u8) > 0 {
            take(&mut d, k, &mut got, &mut r, true)?;
        }
        same(&got[k], &sub[k]).map_err(|e| format!("content: sub-stream {} {}", k, e))?;
    }
    if !d.consumed_all_streams_until_eof() {
        return Err("eof: not reported after everything was consumed".into());
    }
    d.free_demux(&mut m8);
    Ok(())
}

/// The buffers of a multiplexer as two byte queues: pushes and consumes in any proportion, so that every way the
/// buffer is reused (in place, moved down, regrown) occurs with data on both sides of the limits.
fn queue(c: &mut Ctx) -> Result<(), String> {
    let mut m8 = HeapAlloc::<u8>::new(0);
    let mut m = Mux::<HeapAlloc<u8>>::default();
    let mut q = [std::collections::VecDeque::<u8>::new(), std::collections::VecDeque::<u8>::new()];
    let mut r = Rng::new(c.s.u64());
    let mut ops = String::new();
    let mut moved = 0usize;
    c.class("byte queue");
    if c.s.chance(1, 3) {
        let n = *c.s.pick(&[1usize, 512, 4096, 65536, 200_000]);
        m.prealloc(&mut m8, n);
        ops += &format!("prealloc {} ", n);
    }
    let n = c.s.range(2, 14);
    let two = c.s.chance(1, 3);
    for _ in 0..n {
        let k = if two { c.s.usize(2) } else { 0 };
        let len = match c.s.weighted(&[3, 2, 3, 2]) {
            0 => c.s.range(0, 70_000),
            1 => c.s.logrange(0, 140_000),
            2 => {
                // what is left behind the data in a power-of-two buffer, and around it
                let p = 1usize << c.s.range(9, 18);
                (p + c.s.range(0, 64)).saturating_sub(32).saturating_sub(if c.s.chance(1, 2) { q[k].len() } else { 0 })
            }
            _ => c.s.range(0, 40),
        };
        let d: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        match c.s.usize(3) {
            0 => m.push_data(k as u8, &d, &mut m8),
            1 => {
                let w = StreamMuxer::write(&mut m, k as u8, &d, &mut m8);
                if w != len {
                    return Err(format!("write: returned {} for {} bytes", w, len));
                }
            }
            _ => {
                // the demultiplexing entry, framed in slices of any size
                let mut at = 0;
                while at < len {
                    let step = (len - at).min(match c.s.usize(3) {
                        0 => 65536,
                        1 => 1 + c.s.usize(3000),
                        _ => 1 + c.s.usize(65536),
                    });
                    let mut f = vec![k as u8, (step - 1) as u8, ((step - 1) >> 8) as u8];
                    f.extend_from_slice(&d[at..at + step]);
                    let cut = if c.s.chance(1, 3) { c.s.usize(f.len() + 1) } else { f.len() };
                    let a = m.write_linear(&f[..cut], &mut m8);
                    let b = m.write_linear(&f[cut..], &mut m8);
                    if a + b != f.len() {
                        return Err(format!("consumed: write_linear took {}+{} of {} bytes", a, b, f.len()));
                    }
                    at += step;
                }
            }
        }
        q[k].extend(d.iter());
        let j = if two { c.s.usize(2) } else { 0 };
        let have = q[j].len();
        let eat = match c.s.weighted(&[5, 2, 2, 1, 1]) {
            // the two sides of "more free room in front than data"
            0 => (have / 2 + c.s.range(0, 48)).saturating_sub(24).min(have),
            1 => c.s.usize(have + 1),
            2 => have.saturating_sub(c.s.logrange(0, 40)),
            3 => have,
            _ => 0,
        };
        if ops.len() < 400 {
            ops += &format!("push{} {} eat{} {} ", k, len, j, eat);
        }
        if eat > 0 && eat < have {
            moved += 1;
        }
        for k in 0..2 {
            if m.data_ready(k as u8) != q[k].len() || m.how_much_data_avail(k as u8) != q[k].len() {
                return Err(format!("available: sub-stream {} offers {} bytes, {} are queued", k, m.data_ready(k as u8), q[k].len()));
            }
            let (a, b) = q[k].as_slices();
            let p = m.peek(k as u8);
            if p.len() != q[k].len() || p[..a.len()] != *a || p[a.len()..] != *b {
                let w: Vec<u8> = q[k].iter().cloned().collect();
                return Err(format!("content: sub-stream {} {}", k, diff(&w, p)));
            }
            c.checks += 1;
        }
        if c.s.chance(1, 2) {
            m.consume(j as u8, eat);
        } else {
            let mut it = m.read_buffer();
            *it[j].read_offset += eat;
        }
        q[j].drain(..eat);
    }
    c.desc = format!("queue: {}", ops);
    c.nontrivial = moved > 0;
    m.free_demux(&mut m8);
    Ok(())
}

fn same(a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(diff(a, b))
    }
}

fn take(d: &mut Mux<HeapAlloc<u8>>, k: usize, got: &mut [Vec<u8>; 2], r: &mut Rng, fast: bool) -> Result<(), String> {
    let ready = d.data_ready(k as u8);
    let n = if fast { ready } else { r.below(ready as u64 + 1) as usize };
    if r.below(2) == 0 {
        let p = d.peek(k as u8);
        if p.len() != ready {
            return Err(format!("peek: {} bytes, data_ready {}", p.len(), ready));
        }
        got[k].extend_from_slice(&p[..n]);
        d.consume(k as u8, n);
    } else {
        let mut it = d.read_buffer();
        let b = &mut it[k];
        let at = *b.read_offset;
        if b.data.len() - at != ready {
            return Err(format!("read_buffer: {} bytes, data_ready {}", b.data.len() - at, ready));
        }
        got[k].extend_from_slice(&b.data[at..at + n]);
        *b.read_offset += n;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

const P15_RULE: &str = "case = adaptor (both compressing readers, the decompressing reader serial or multithreaded, both compressing writers, the decompressing writer) x data x buffer size x caller chunking x a fault script for the underlying stream (short operations, Interrupted, WouldBlock, other errors, zero-length writes, a permanent failure from some operation on, a truncated or extended stream); the caller retries; oracle: the delivered bytes are the data (or decode to it) exactly once, every injected error is returned to the caller once and in order, no clean end or success with data missing; non-trivial: at least one fault was delivered and at least 32 bytes of data";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Full,
    Short(usize),
    Interrupted,
    WouldBlock,
    Other(io::ErrorKind),
    Zero,
}
#[derive(Debug)]
struct Tag(u64);
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Tag {}

#[derive(Default)]
struct Io {
    data: Vec<u8>,
    at: usize,
    script: Vec<Fault>,
    i: usize,
    calls: usize,
    /// Faults are delivered only before this call number (so that a run always ends), unless permanent.
    quiet_after: usize,
    permanent_at: usize,
    permanent_kind: Option<io::ErrorKind>,
    next_tag: u64,
    /// Errors handed to the adaptor that its caller must see: tag, or None for a zero-length write.
    due: VecDeque<Option<u64>>,
    delivered: usize,
    flushes: usize,
    saw_eof: usize,
}
impl Io {
    fn step(&mut self) -> Result<Fault, io::Error> {
        self.calls += 1;
        if self.calls > self.permanent_at {
            let k = self.permanent_kind.unwrap_or(io::ErrorKind::BrokenPipe);
            return Err(self.fail(k));
        }
        let f = if self.script.is_empty() || self.calls > self.quiet_after { Fault::Full } else { self.script[self.i % self.script.len()] };
        self.i += 1;
        match f {
            Fault::Full | Fault::Short(_) => Ok(f),
            Fault::Zero => {
                self.delivered += 1;
                self.due.push_back(None);
                Ok(f)
            }
            Fault::Interrupted => {
                self.delivered += 1;
                Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"))
            }
            Fault::WouldBlock => Err(self.fail(io::ErrorKind::WouldBlock)),
            Fault::Other(k) => Err(self.fail(k)),
        }
    }
    fn fail(&mut self, k: io::ErrorKind) -> io::Error {
        self.delivered += 1;
        self.next_tag += 1;
        self.due.push_back(Some(self.next_tag));
        io::Error::new(k, Tag(self.next_tag))
    }
}
#[derive(Clone)]
struct Fake(Rc<RefCell<Io>>);
impl Read for Fake {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut g = self.0.borrow_mut();
        let f = g.step()?;
        let mut n = b.len().min(g.data.len() - g.at);
        if let Fault::Short(k) = f {
            n = n.min(k.max(1));
        }
        let at = g.at;
        b[..n].copy_from_slice(&g.data[at..at + n]);
        g.at += n;
        if n == 0 && !b.is_empty() {
            g.saw_eof += 1;
        }
        Ok(n)
    }
}
impl Write for Fake {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut g = self.0.borrow_mut();
        let f = g.step()?;
        let n = match f {
            Fault::Short(k) => b.len().min(k.max(1)),
            Fault::Zero => 0,
            _ => b.len(),
        };
        g.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut g = self.0.borrow_mut();
        g.flushes += 1;
        match g.step()? {
            Fault::Zero => {
                g.due.pop_back();
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

const KINDS: [io::ErrorKind; 17] = {
    use io::ErrorKind::*;
    [Other, UnexpectedEof, InvalidData, InvalidInput, WriteZero, BrokenPipe, TimedOut, ConnectionReset, ConnectionAborted, NotConnected, NotFound, PermissionDenied, AlreadyExists, AddrInUse, OutOfMemory, Unsupported, ConnectionRefused]
};

fn script(s: &mut Src, writer: bool) -> Vec<Fault> {
    let n = s.weighted(&[1, 3, 3, 3]);
    let n = [0usize, 2, 6, 16][n];
    (0..n)
        .map(|_| match s.weighted(&[3, 4, 2, 2, 2, if writer { 1 } else { 0 }]) {
            0 => Fault::Full,
            1 => Fault::Short(s.logrange(1, 2000)),
            2 => Fault::Interrupted,
            3 => Fault::WouldBlock,
            4 => Fault::Other(*s.pick(&KINDS)),
            _ => Fault::Zero,
        })
        .collect()
}

/// Match an error returned to the caller against the queue of injected ones.
fn surfaced(io: &Rc<RefCell<Io>>, e: &io::Error) -> Result<bool, String> {
    let tag = e.get_ref().and_then(|r| r.downcast_ref::<Tag>()).map(|t| t.0);
    let mut g = io.borrow_mut();
    match tag {
        Some(t) => match g.due.pop_front() {
            Some(Some(d)) if d == t => Ok(true),
            d => Err(format!("order: error {} returned while {:?} was due", t, d)),
        },
        None if e.kind() == io::ErrorKind::WriteZero && g.due.front() == Some(&None) => {
            g.due.pop_front();
            Ok(true)
        }
        None => Ok(false),
    }
}

fn p15(c: &mut Ctx) -> Result<(), String> {
    let which = c.s.usize(6);
    let lim = match c.s.weighted(&[6, 3, 1]) {
        0 => 3000,
        1 => 30_000,
        _ => 200_000,
    };
    let o = gen::options(&mut c.s, 10, 24, if lim > 10_000 { 6 } else { 11 }, which == 0 || which == 3);
    let d = gen::data(&mut c.s, lim);
    let bufsize = match c.s.weighted(&[2, 3, 3]) {
        0 => 0,
        1 => *c.s.pick(&[1usize, 2, 3, 15, 16, 17, 255, 256, 257, 511, 512, 513, 4095, 65536]),
        _ => c.s.logrange(1, 20000),
    };
    let eff = if bufsize == 0 { 4096 } else { bufsize };
    let bufsize = if d.bytes.len() / eff > 20_000 { 64 } else { bufsize };
    let cp = pat(&mut c.s, d.bytes.len(), 6000);
    let sc = script(&mut c.s, which >= 3);
    let quiet = c.s.logrange(3, 3000);
    let permanent = if c.s.chance(1, 5) { c.s.logrange(0, 300) } else { usize::MAX };
    let names = ["hybrid compressing reader", "internal compressing reader", "decompressing reader", "hybrid compressing writer", "internal compressing writer", "decompressing writer"];
    c.class(names[which]);
    let kind = *c.s.pick(&KINDS);
    let mut io = Io { script: sc.clone(), quiet_after: quiet, permanent_at: permanent, permanent_kind: Some(kind), ..Io::default() };
    let base = format!("{}: {} bytes, buffer {}, caller chunks {:?}, faults {:?} for {} operations, permanent {:?} from {}", names[which], d.bytes.len(), bufsize, cp.0, sc, quiet, kind, permanent as i64);
    let big = Pat::big();
    match which {
        0 | 1 => {
            c.desc = format!("{} {}", base, o.desc);
            io.data = d.bytes.clone();
            let sh = Rc::new(RefCell::new(io));
            let f = Fake(sh.clone());
            let r = if which == 0 {
                drain(&mut divans::DivansBrotliHybridCompressorReader::new(f, o.opts, bufsize), &cp, &sh, c)?
            } else {
                drain(&mut divans::DivansExperimentalCompressorReader::new(f, o.opts, bufsize), &cp, &sh, c)?
            };
            verdicts(c, &sh, d.bytes.len());
            let g = sh.borrow();
            match r.1 {
                End::Clean => {
                    if !g.due.is_empty() {
                        return Err(format!("swallowed: error {:?} was never returned to the caller", g.due));
                    }
                    if g.at != d.bytes.len() {
                        return Err(format!("clean end: only {} of {} bytes were read", g.at, d.bytes.len()));
                    }
                    let dec = decode(&r.0, &big, &big, false, false)?;
                    expect_decoded(&dec, &d.bytes, r.0.len(), "compressing reader")
                }
                End::Gave(k) if k.contains("injected") && g.calls > g.permanent_at => Ok(()),
                End::Gave(k) => Err(format!("spurious: reader failed with {}", k)),
            }
        }
        2 => {
            let kind = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
            let stream = compress(kind, o.opts, &d.bytes)?;
            let cut = if c.s.chance(1, 4) { c.s.usize(stream.len()) } else { stream.len() };
            let extra = if cut == stream.len() && c.s.chance(1, 5) { 1 + c.s.usize(600) } else { 0 };
            let mt = c.s.chance(1, 8);
            let skip = c.s.chance(1, 4);
            c.desc = format!("{}, stream {} cut to {} plus {} more, threads {} skip_crc {} {}", base, stream.len(), cut, extra, mt, skip, o.desc);
            io.data = stream[..cut].to_vec();
            io.data.resize(cut + extra, 0x41);
            let sh = Rc::new(RefCell::new(io));
            let mut rd = divans::DivansDecompressorReader::new(Fake(sh.clone()), bufsize, skip, mt);
            let r = drain(&mut rd, &cp, &sh, c)?;
            verdicts(c, &sh, d.bytes.len());
            if r.0.len() > d.bytes.len() || r.0[..] != d.bytes[..r.0.len()] {
                return Err(format!("content: {} bytes delivered that are not the start of the {} byte original", r.0.len(), d.bytes.len()));
            }
            let g = sh.borrow();
            match r.1 {
                End::Clean if cut < stream.len() => Err(format!("clean end: stream truncated at {} of {} ended cleanly after {} of {} bytes", cut, stream.len(), r.0.len(), d.bytes.len())),
                End::Clean if r.0.len() != d.bytes.len() => Err(format!("clean end: {} of {} bytes", r.0.len(), d.bytes.len())),
                End::Clean if g.at < stream.len() => Err(format!("clean end: {} of {} stream bytes were read", g.at, stream.len())),
                End::Clean => Ok(()),
                End::Gave(k) if k.contains("injected") && g.calls > g.permanent_at => Ok(()),
                End::Gave(_) if cut < stream.len() => {
                    if !g.due.is_empty() {
                        return Err(format!("swallowed: error {:?} was never returned to the caller", g.due));
                    }
                    Ok(())
                }
                End::Gave(k) => Err(format!("spurious: reader failed with {}", k)),
            }
        }
        3 | 4 => {
            c.desc = format!("{} {}", base, o.desc);
            let sh = Rc::new(RefCell::new(io));
            let f = Fake(sh.clone());
            let writes = split(&d.bytes, &cp);
            let r = if which == 3 {
                fill(&mut divans::DivansBrotliHybridCompressorWriter::new(f, o.opts, bufsize), &writes, &sh, c)?
            } else {
                fill(&mut divans::DivansExperimentalCompressorWriter::new(f, o.opts, bufsize), &writes, &sh, c)?
            };
            verdicts(c, &sh, d.bytes.len());
            let g = sh.borrow();
            match r {
                End::Clean => {
                    let dec = decode(&g.data, &big, &big, false, false)?;
                    expect_decoded(&dec, &d.bytes, g.data.len(), "compressing writer")
                }
                End::Gave(k) if k.contains("injected") && g.calls > g.permanent_at => Ok(()),
                End::Gave(k) => Err(format!("spurious: writer failed with {}", k)),
            }
        }
        _ => {
            let kind = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
            let stream = compress(kind, o.opts, &d.bytes)?;
            let cut = if c.s.chance(1, 6) { c.s.usize(stream.len()) } else { stream.len() };
            let mt = c.s.chance(1, 8);
            c.desc = format!("{}, stream {} cut to {}, threads {} {}", base, stream.len(), cut, mt, o.desc);
            let sh = Rc::new(RefCell::new(io));
            let mut w = divans::DivansDecompressorWriter::new(Fake(sh.clone()), bufsize, c.s.chance(1, 4), mt);
            let p2 = Pat(cp.0.iter().map(|n| (*n).min(stream.len().max(1))).collect());
            let writes = split(&stream[..cut], &p2);
            let r = fill(&mut w, &writes, &sh, c)?;
            verdicts(c, &sh, d.bytes.len());
            let g = sh.borrow();
            if g.data.len() > d.bytes.len() || g.data[..] != d.bytes[..g.data.len()] {
                return Err(format!("content: {} bytes written that are not the start of the {} byte original", g.data.len(), d.bytes.len()));
            }
            match r {
                End::Clean if cut == stream.len() && g.data.len() != d.bytes.len() => Err(format!("success: {} of {} bytes were written", g.data.len(), d.bytes.len())),
                End::Clean => Ok(()),
                End::Gave(k) if k.contains("injected") && g.calls > g.permanent_at => Ok(()),
                End::Gave(_) if cut < stream.len() => Ok(()),
                End::Gave(k) => Err(format!("spurious: writer failed with {}", k)),
            }
        }
    }
}

fn verdicts(c: &mut Ctx, sh: &Rc<RefCell<Io>>, n: usize) {
    let g = sh.borrow();
    c.nontrivial = g.delivered > 0 && n >= 32;
    if g.calls > g.permanent_at {
        c.class("permanent failure reached");
    }
    if g.delivered > 0 {
        c.class("fault delivered");
    }
    c.checks += g.calls as u64;
}

enum End {
    Clean,
    Gave(String),
}

/// Read to the end, retrying after errors.
fn drain(r: &mut dyn Read, p: &Pat, sh: &Rc<RefCell<Io>>, c: &mut Ctx) -> Result<(Vec<u8>, End), String> {
    let mut out = vec![];
    let mut i = 0;
    let mut own_errors = 0;
    loop {
        let n = p.at(i);
        i += 1;
        let mut b = vec![0xc3u8; n];
        match r.read(&mut b) {
            Ok(k) => {
                if k > n {
                    return Err(format!("count: read returned {} for a buffer of {}", k, n));
                }
                if b[k..].iter().any(|x| *x != 0xc3) {
                    return Err("overwrite: bytes beyond the returned count were written".into());
                }
                if own_errors > 0 && n > 0 && k == 0 {
                    return Err("clean end: reported after an error".into());
                }
                out.extend_from_slice(&b[..k]);
                if k == 0 && n > 0 {
                    // stays at the end, without touching the source
                    let (calls, saw) = { let g = sh.borrow(); (g.calls, g.saw_eof > 0) };
                    let mut b = [0u8; 9];
                    for _ in 0..2 {
                        match r.read(&mut b) {
                            Ok(0) => {}
                            // an error of the source met at the very end
                            Err(e) if surfaced(sh, &e)? => {}
                            x => return Err(format!("after end: read gave {:?} after reporting the end", x)),
                        }
                    }
                    if saw && sh.borrow().calls != calls {
                        return Err("after end: the source was read again".into());
                    }
                    c.checks += 1;
                    return Ok((out, End::Clean));
                }
            }
            Err(e) => {
                if e.kind() == io::ErrorKind::Interrupted {
                    continue;
                }
                let mine = surfaced(sh, &e)?;
                let over = { let g = sh.borrow(); g.calls > g.permanent_at };
                if mine && !over {
                    continue;
                }
                own_errors += 1;
                // a failure stays a failure
                if own_errors > 2 {
                    return Ok((out, End::Gave(format!("{:?} {}", e.kind(), e))));
                }
            }
        }
    }
}

/// Write everything, retrying after errors, then flush twice.
fn fill(w: &mut dyn Write, writes: &[&[u8]], sh: &Rc<RefCell<Io>>, c: &mut Ctx) -> Result<End, String> {
    let mut own = 0;
    let mut gave = |sh: &Rc<RefCell<Io>>, e: io::Error| -> Result<Option<End>, String> {
        if e.kind() == io::ErrorKind::Interrupted {
            return Ok(None);
        }
        let mine = surfaced(sh, &e)?;
        let over = { let g = sh.borrow(); g.calls > g.permanent_at };
        if mine && !over {
            return Ok(None);
        }
        own += 1;
        Ok(if own > 2 { Some(End::Gave(format!("{:?} {}", e.kind(), e))) } else { None })
    };
    for b in writes {
        let mut at = 0;
        let mut zeros = 0;
        while at < b.len() {
            match w.write(&b[at..]) {
                Ok(n) => {
                    if n > b.len() - at {
                        return Err(format!("count: write returned {} for {} bytes", n, b.len() - at));
                    }
                    at += n;
                    zeros = if n == 0 { zeros + 1 } else { 0 };
                    if zeros > 5 {
                        return Err("stall: write keeps accepting nothing".into());
                    }
                }
                Err(e) => {
                    if let Some(x) = gave(sh, e)? {
                        return Ok(x);
                    }
                }
            }
        }
    }
    for round in 0..2 {
        let before = sh.borrow().data.len();
        loop {
            let flushes = sh.borrow().flushes;
            match w.flush() {
                Ok(()) => {
                    let g = sh.borrow();
                    if !g.due.is_empty() {
                        return Err(format!("swallowed: error {:?} was never returned to the caller", g.due));
                    }
                    if g.flushes == flushes {
                        return Err("flush: succeeded without flushing the underlying writer".into());
                    }
                    break;
                }
                Err(e) => {
                    if let Some(x) = gave(sh, e)? {
                        return Ok(x);
                    }
                }
            }
        }
        if round == 1 && sh.borrow().data.len() != before {
            return Err(format!("flush: a second flush wrote {} more bytes", sh.borrow().data.len() - before));
        }
        c.checks += 1;
    }
    Ok(End::Clean)
}
