//! P23: memory of the Rust interface, seen by the caller's own typed allocators.
use crate::drive::{self, expect_decoded, Kind};
use crate::gen::{self, pat, Pat};
use crate::lz;
use crate::runner::{Ctx, Prop};
use crate::src::Src;
use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
use brotli::enc;
use divans::{Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansCompressorOptions, DivansDecompressorFactory, DivansOutputResult, DivansResult, Nop, StaticCommand};
use std::sync::{Arc, Mutex};

/// What the allocators of one case have given out and got back.
#[derive(Default)]
pub struct Book {
    cells: Vec<Row>,
    wrong: Vec<String>,
}
struct Row {
    kind: &'static str,
    owner: usize,
    len: usize,
    back: bool,
    lost: bool,
}
type Shared = Arc<Mutex<Book>>;

pub struct Cell<T> {
    data: Vec<T>,
    id: Option<(Shared, usize)>,
}
impl<T> Default for Cell<T> {
    fn default() -> Self {
        Cell { data: vec![], id: None }
    }
}
impl<T> SliceWrapper<T> for Cell<T> {
    fn slice(&self) -> &[T] {
        &self.data
    }
}
impl<T> SliceWrapperMut<T> for Cell<T> {
    fn slice_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T> std::ops::Index<usize> for Cell<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.data[i]
    }
}
impl<T> std::ops::IndexMut<usize> for Cell<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.data[i]
    }
}
impl<T> Drop for Cell<T> {
    fn drop(&mut self) {
        if let Some((b, i)) = self.id.take() {
            if let Ok(mut b) = b.lock() {
                b.cells[i].lost = true;
            }
        }
    }
}

/// An allocator that remembers. `owner` tells apart allocators of the same type.
pub struct Alloc<T> {
    init: T,
    kind: &'static str,
    owner: usize,
    book: Shared,
}
impl<T: Clone> Allocator<T> for Alloc<T> {
    type AllocatedMemory = Cell<T>;
    fn alloc_cell(&mut self, n: usize) -> Cell<T> {
        if n == 0 {
            return Cell::default();
        }
        let mut b = self.book.lock().unwrap();
        b.cells.push(Row { kind: self.kind, owner: self.owner, len: n, back: false, lost: false });
        let i = b.cells.len() - 1;
        drop(b);
        Cell { data: vec![self.init.clone(); n], id: Some((self.book.clone(), i)) }
    }
    fn free_cell(&mut self, mut c: Cell<T>) {
        if let Some((book, i)) = c.id.take() {
            let mut b = book.lock().unwrap();
            b.cells[i].back = true;
            if b.cells[i].owner != self.owner {
                let m = format!("{} cell of {} from allocator {} was given to allocator {}", self.kind, b.cells[i].len, b.cells[i].owner, self.owner);
                b.wrong.push(m);
            }
            if b.cells[i].len != c.data.len() {
                let m = format!("{} cell of {} came back with length {}", self.kind, b.cells[i].len, c.data.len());
                b.wrong.push(m);
            }
        }
    }
}
fn al<T>(book: &Shared, init: T, kind: &'static str, owner: usize) -> Alloc<T> {
    Alloc { init, kind, owner, book: book.clone() }
}

type IF = divans::DivansCompressorFactoryStruct<Alloc<u8>, Alloc<DefaultCDF16>>;
type HF = divans::BrotliDivansHybridCompressorFactory<Alloc<u8>, Alloc<DefaultCDF16>, Tracked>;
type DF = divans::DivansDecompressorFactoryStruct<Alloc<u8>, Alloc<DefaultCDF16>, Alloc<StaticCommand>>;
type Tracked = enc::CombiningAllocator<
    Alloc<u8>,
    Alloc<u16>,
    Alloc<i32>,
    Alloc<u32>,
    Alloc<u64>,
    Alloc<enc::command::Command>,
    Alloc<enc::util::floatX>,
    Alloc<enc::v8>,
    Alloc<enc::s16>,
    Alloc<enc::PDF>,
    Alloc<enc::StaticCommand>,
    Alloc<enc::histogram::HistogramLiteral>,
    Alloc<enc::histogram::HistogramCommand>,
    Alloc<enc::histogram::HistogramDistance>,
    Alloc<enc::cluster::HistogramPair>,
    Alloc<enc::histogram::ContextType>,
    Alloc<enc::entropy_encode::HuffmanTree>,
    Alloc<enc::ZopfliNode>,
>;
fn tracked(b: &Shared) -> Tracked {
    let o = 3;
    enc::CombiningAllocator::new(
        al(b, 0, "brotli u8", o),
        al(b, 0, "brotli u16", o),
        al(b, 0, "brotli i32", o),
        al(b, 0, "brotli u32", o),
        al(b, 0, "brotli u64", o),
        al(b, enc::command::Command::default(), "brotli Command", o),
        al(b, 0.0 as enc::util::floatX, "brotli float", o),
        al(b, enc::v8::default(), "brotli v8", o),
        al(b, enc::s16::default(), "brotli s16", o),
        al(b, enc::PDF::default(), "brotli PDF", o),
        al(b, enc::StaticCommand::default(), "brotli StaticCommand", o),
        al(b, enc::histogram::HistogramLiteral::default(), "brotli HistogramLiteral", o),
        al(b, enc::histogram::HistogramCommand::default(), "brotli HistogramCommand", o),
        al(b, enc::histogram::HistogramDistance::default(), "brotli HistogramDistance", o),
        al(b, enc::cluster::HistogramPair::default(), "brotli HistogramPair", o),
        al(b, enc::histogram::ContextType::default(), "brotli ContextType", o),
        al(b, enc::entropy_encode::HuffmanTree::default(), "brotli HuffmanTree", o),
        al(b, enc::ZopfliNode::default(), "brotli ZopfliNode", o),
    )
}

const RULE: &str = "case = a compressor of either kind (fed by writes or by commands) or a decompressor (serial or multithreaded, on a stream that is whole, cut or damaged) built over the caller's own typed allocators through the Rust interface, used with drawn buffer sizes up to a drawn call and then released by free() or free_ref(), the allocators sometimes used again for a second stream; oracle: every cell came back to the allocator that made it, whole, before the object was gone, results are those of the default allocators, and free() hands back the allocators themselves; non-trivial: at least 5 cells were allocated";

/// What the drawn calls did before the object was released.
enum End {
    Stopped,
    Done(Vec<u8>),
    Error(String),
}

/// Calls a compressor until done or `stop` calls were made.
fn press(c: &mut impl Compressor, writes: &[&[u8]], cmds: Option<&[divans::Command<lz::Sl>]>, op: &Pat, stop: usize) -> End {
    let mut out = vec![];
    let mut buf = vec![0u8; op.0.iter().max().copied().unwrap_or(1).max(1)];
    let mut n = 0;
    let mut win = |f: &mut dyn FnMut(&mut [u8], &mut usize) -> Result<bool, String>| -> Result<bool, End> {
        loop {
            if n >= stop {
                return Err(End::Stopped);
            }
            if n > 4_000_000 {
                return Err(End::Error("does not end".into()));
            }
            let k = op.at(n);
            let mut o = 0;
            let r = f(&mut buf[..k], &mut o);
            n += 1;
            out.extend_from_slice(&buf[..o]);
            match r {
                Ok(true) => return Ok(true),
                Ok(false) => {}
                Err(e) => return Err(End::Error(e)),
            }
        }
    };
    let fed = (|| {
        if let Some(cmds) = cmds {
            let mut off = 0;
            win(&mut |b, o| match c.encode_commands(cmds, &mut off, b, o) {
                DivansOutputResult::Success => Ok(off == cmds.len()),
                DivansOutputResult::NeedsMoreOutput => Ok(false),
                DivansOutputResult::Failure(e) => Err(format!("{:?}", e)),
            })?;
        } else {
            for w in writes {
                let mut off = 0;
                if w.is_empty() {
                    continue;
                }
                win(&mut |b, o| match c.encode(w, &mut off, b, o) {
                    DivansResult::NeedsMoreInput => Ok(off == w.len()),
                    DivansResult::NeedsMoreOutput => Ok(false),
                    DivansResult::Success => Err("success before flush".into()),
                    DivansResult::Failure(e) => Err(format!("{:?}", e)),
                })?;
            }
        }
        win(&mut |b, o| match c.flush(b, o) {
            DivansOutputResult::Success => Ok(true),
            DivansOutputResult::NeedsMoreOutput => Ok(false),
            DivansOutputResult::Failure(e) => Err(format!("{:?}", e)),
        })
    })();
    match fed {
        Ok(_) => End::Done(out),
        Err(e) => e,
    }
}

/// Calls a decompressor until a verdict, the end of its input, or `stop` calls.
fn expand(d: &mut impl Decompressor, st: &[u8], ip: &Pat, op: &Pat, stop: usize, limit: usize) -> End {
    let mut out = vec![];
    let mut buf = vec![0u8; op.0.iter().max().copied().unwrap_or(1).max(1)];
    let (mut pos, mut end, mut n, mut fresh) = (0usize, 0usize, 0usize, 0usize);
    loop {
        if n >= stop || out.len() > limit {
            return End::Stopped;
        }
        if n > 4_000_000 {
            return End::Error("does not end".into());
        }
        let mut o = 0;
        let k = op.at(n);
        n += 1;
        let r = d.decode(&st[..end], &mut pos, &mut buf[..k], &mut o);
        out.extend_from_slice(&buf[..o]);
        match r {
            DivansResult::Success => return End::Done(out),
            DivansResult::NeedsMoreOutput => {}
            DivansResult::NeedsMoreInput => {
                if pos == end {
                    if end == st.len() {
                        return End::Stopped;
                    }
                    end = (end + ip.at(fresh).max(1)).min(st.len());
                    fresh += 1;
                }
            }
            DivansResult::Failure(e) => return End::Error(format!("{:?}", e)),
        }
    }
}

fn settle(c: &mut Ctx, b: &Shared, how: &str) -> Result<usize, String> {
    c.checks += 1;
    let g = b.lock().unwrap();
    if let Some(w) = g.wrong.first() {
        return Err(format!("misdelivered: {}", w));
    }
    let bad: Vec<String> = g.cells.iter().filter(|r| !r.back).map(|r| format!("{} of {}{}", r.kind, r.len, if r.lost { "" } else { " (still held)" })).collect();
    if !bad.is_empty() {
        return Err(format!("kept: after {} {} of {} cells had not come back to their allocator: {}", how, bad.len(), g.cells.len(), bad[..bad.len().min(6)].join(", ")));
    }
    Ok(g.cells.len())
}

fn same(b: &Shared, x: &Shared, owner: usize, want: usize) -> Result<(), String> {
    if !Arc::ptr_eq(b, x) || owner != want {
        return Err("allocators: free() handed back another allocator".into());
    }
    Ok(())
}

fn stop_at(s: &mut Src) -> usize {
    match s.weighted(&[4, 1, 4]) {
        0 => usize::MAX,
        1 => 0,
        _ => s.logrange(0, 80),
    }
}

fn p23(c: &mut Ctx) -> Result<(), String> {
    let book: Shared = Default::default();
    let mut m8 = al(&book, 0u8, "u8", 1);
    let mut m32 = Some(al(&book, 0u32, "u32", 1));
    let mut mcdf = al(&book, DefaultCDF16::default(), "CDF16", 1);
    let mut mcmd = al(&book, StaticCommand::nop(), "StaticCommand", 1);
    let lim = match c.s.weighted(&[6, 3, 1]) {
        0 => 2000,
        1 => 20_000,
        _ => 150_000,
    };
    let rounds = 1 + c.s.weighted(&[3, 1]);
    for round in 0..rounds {
        let what = c.s.weighted(&[3, 2, 3, 3, 2]);
        let lim = if what == 2 && c.s.chance(1, 8) { 150_000 } else { lim };
        let by_ref = c.s.chance(1, 2);
        let stop = stop_at(&mut c.s);
        let how = if by_ref { "free_ref()" } else { "free()" };
        let mut desc = format!("{} after {} calls, ", how, stop as i64);
        let old = std::mem::take(&mut c.desc);
        let hybrid = what == 2;
        if what < 3 {
            c.class(["internal compressor, writes", "internal compressor, commands", "hybrid compressor"][what]);
            let o = gen::options(&mut c.s, 10, 18, if what == 2 { 9 } else { 6 }, hybrid);
            let opts: DivansCompressorOptions = o.opts;
            let w = opts.window_size.unwrap_or(22).max(10).min(24) as u32;
            let d;
            let cs: Vec<lz::C>;
            let cmds: Vec<_>;
            let wp = pat(&mut c.s, lim, 1000);
            let op = pat(&mut c.s, lim, 1000);
            let mut writes: Vec<&[u8]> = vec![];
            let want;
            if what == 1 {
                let co = lz::CmdOpts { window: w, max_out: lim, max_cmds: 60, meta: true, max_dist_slack: 16, huge: false };
                let (x, y) = lz::commands(&mut c.s, &co);
                cs = x;
                want = y;
                cmds = cs.iter().map(|x| x.to_cmd()).collect();
                desc += &format!("commands [{}]", lz::brief(&cs));
            } else {
                d = gen::data(&mut c.s, lim);
                let mut at = 0;
                let mut i = 0;
                while at < d.bytes.len() {
                    let n = wp.at(i).max(1).min(d.bytes.len() - at);
                    writes.push(&d.bytes[at..at + n]);
                    at += n;
                    i += 1;
                }
                want = d.bytes.clone();
                cmds = vec![];
                desc += &format!("{} bytes, writes {:?}", want.len(), wp.0);
            }
            desc += &format!(", out {:?}, {}", op.0, o.desc);
            c.desc = format!("{}{}", old, desc);
            let end;
            if hybrid {
                let mut e = <HF as DivansCompressorFactory<_, _, _>>::new(m8, m32.take().unwrap_or_else(|| al(&book, 0, "u32", 1)), mcdf, opts, tracked(&book));
                end = press(&mut e, &writes, None, &op, stop);
                if by_ref {
                    e.free_ref();
                    m8 = al(&book, 0, "u8", 1);
                    mcdf = al(&book, DefaultCDF16::default(), "CDF16", 1);
                    settle(c, &book, how)?;
                    drop(e);
                } else {
                    let (a, b, _) = e.free();
                    same(&book, &a.book, a.owner, 1)?;
                    same(&book, &b.book, b.owner, 1)?;
                    m8 = a;
                    mcdf = b;
                }
            } else {
                let mut e = <IF as DivansCompressorFactory<_, _, _>>::new(m8, m32.take().unwrap_or_else(|| al(&book, 0, "u32", 1)), mcdf, opts, ());
                end = press(&mut e, &writes, if what == 1 { Some(&cmds[..]) } else { None }, &op, stop);
                if by_ref {
                    e.free_ref();
                    m8 = al(&book, 0, "u8", 1);
                    mcdf = al(&book, DefaultCDF16::default(), "CDF16", 1);
                    settle(c, &book, how)?;
                    drop(e);
                } else {
                    let (a, b, x) = e.free();
                    same(&book, &a.book, a.owner, 1)?;
                    same(&book, &b.book, b.owner, 1)?;
                    same(&book, &x.book, x.owner, 1)?;
                    m8 = a;
                    m32 = Some(b);
                    mcdf = x;
                }
            }
            match end {
                End::Stopped => c.class("released midway"),
                End::Done(s) => {
                    c.class("released after success");
                    let dec = drive::decode(&s, &Pat::big(), &Pat::big(), false, false)?;
                    expect_decoded(&dec, &want, s.len(), "own allocators")?;
                }
                End::Error(e) => return Err(format!("encode-failure: {}", e)),
            }
        } else {
            let mt = what == 4;
            c.class(if mt { "multithreaded decompressor" } else { "serial decompressor" });
            let (mut st, want, from) = if c.s.chance(1, 2) {
                super::core::made_stream(c, lim)?
            } else {
                let d = gen::data(&mut c.s, lim);
                let kind = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
                let o = gen::options(&mut c.s, 10, 18, 6, kind == Kind::Hybrid);
                let st = drive::compress(kind, o.opts, &d.bytes)?;
                (st, d.bytes, o.desc)
            };
            let mut damage = String::from("none");
            match c.s.weighted(&[4, 2, 2]) {
                0 => {}
                1 => {
                    let at = c.s.usize(st.len());
                    st.truncate(at);
                    damage = format!("cut at {}", at);
                }
                _ => {
                    for _ in 0..1 + c.s.usize(3) {
                        let at = c.s.usize(st.len());
                        st[at] ^= 1 + c.s.usize(255) as u8;
                        damage = format!("bytes changed, last {}", at);
                    }
                }
            }
            if damage == "none" {
                c.class("whole stream");
            } else {
                c.class("damaged stream");
            }
            let skip = c.s.chance(1, 3);
            let ip = pat(&mut c.s, st.len(), 1000);
            let op = pat(&mut c.s, want.len(), 1000);
            desc += &format!("stream of {} bytes, damage {}, threads {}, skip_crc {}, in {:?}, out {:?}, {}", st.len(), damage, mt, skip, ip.0, op.0, from);
            c.desc = format!("{}{}", old, desc);
            let mut d = <DF as DivansDecompressorFactory<_, _, _>>::new(m8, mcdf, mcmd, skip, mt);
            let end = expand(&mut d, &st, &ip, &op, stop, want.len() + 100_000);
            if by_ref {
                d.free_ref();
                settle(c, &book, how)?;
                drop(d);
                m8 = al(&book, 0, "u8", 1);
                mcdf = al(&book, DefaultCDF16::default(), "CDF16", 1);
                mcmd = al(&book, StaticCommand::nop(), "StaticCommand", 1);
            } else {
                let (a, b, x) = d.free();
                same(&book, &a.book, a.owner, 1)?;
                same(&book, &b.book, b.owner, 1)?;
                same(&book, &x.book, x.owner, 1)?;
                m8 = a;
                mcdf = b;
                mcmd = x;
            }
            match end {
                End::Stopped => c.class("released midway"),
                End::Done(out) => {
                    c.class("released after success");
                    if damage == "none" && out != want {
                        return Err(format!("content: {}", drive::diff(&out, &want)));
                    }
                }
                End::Error(e) => {
                    c.class("released after an error");
                    if damage == "none" || e == "does not end" {
                        return Err(format!("decode-failure: {}", e));
                    }
                }
            }
        }
        if round > 0 {
            c.class("allocators used again");
        }
        c.desc += "; ";
        let n = settle(c, &book, how)?;
        c.nontrivial = n >= 5;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P23", quick: 9000, thorough: 150_000, rule: RULE, case: p23, cpu_limit: 60, spawns: false, mem_mb: 6000, exhaustive: false }]
}
