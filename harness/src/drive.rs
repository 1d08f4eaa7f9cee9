//! Drivers for the real encoders and decoders through their streaming interfaces, with progress accounting.
use crate::gen::Pat;
use alloc_stdlib::HeapAlloc;
use brotli::enc;
use divans::{
    Command, Compressor, Decompressor, DefaultCDF16, DivansCompressorFactory, DivansCompressorOptions, DivansDecompressorFactory, DivansOutputResult,
    DivansResult, StaticCommand, SliceWrapper, Nop,
};

pub type InternalFactory = divans::DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>>;
pub type Internal = <InternalFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub type Combined = enc::CombiningAllocator<
    HeapAlloc<u8>,
    HeapAlloc<u16>,
    HeapAlloc<i32>,
    HeapAlloc<u32>,
    HeapAlloc<u64>,
    HeapAlloc<enc::command::Command>,
    HeapAlloc<enc::util::floatX>,
    HeapAlloc<enc::v8>,
    HeapAlloc<enc::s16>,
    HeapAlloc<enc::PDF>,
    HeapAlloc<enc::StaticCommand>,
    HeapAlloc<enc::histogram::HistogramLiteral>,
    HeapAlloc<enc::histogram::HistogramCommand>,
    HeapAlloc<enc::histogram::HistogramDistance>,
    HeapAlloc<enc::cluster::HistogramPair>,
    HeapAlloc<enc::histogram::ContextType>,
    HeapAlloc<enc::entropy_encode::HuffmanTree>,
    HeapAlloc<enc::ZopfliNode>,
>;
pub type HybridFactory = divans::BrotliDivansHybridCompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, Combined>;
pub type Hybrid = <HybridFactory as DivansCompressorFactory<HeapAlloc<u8>, HeapAlloc<u32>, HeapAlloc<DefaultCDF16>>>::ConstructedCompressor;
pub type DecFactory = divans::DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>;
pub type Dec = divans::DivansDecompressor<
    <DecFactory as DivansDecompressorFactory<HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>>>::DefaultDecoder,
    HeapAlloc<u8>,
    HeapAlloc<DefaultCDF16>,
    HeapAlloc<StaticCommand>,
>;

pub fn combined() -> Combined {
    enc::CombiningAllocator::new(
        HeapAlloc::new(0),
        HeapAlloc::new(0),
        HeapAlloc::new(0),
        HeapAlloc::new(0),
        HeapAlloc::new(0),
        HeapAlloc::new(enc::command::Command::default()),
        HeapAlloc::new(0.0 as enc::util::floatX),
        HeapAlloc::new(enc::v8::default()),
        HeapAlloc::new(enc::s16::default()),
        HeapAlloc::new(enc::PDF::default()),
        HeapAlloc::new(enc::StaticCommand::default()),
        HeapAlloc::new(enc::histogram::HistogramLiteral::default()),
        HeapAlloc::new(enc::histogram::HistogramCommand::default()),
        HeapAlloc::new(enc::histogram::HistogramDistance::default()),
        HeapAlloc::new(enc::cluster::HistogramPair::default()),
        HeapAlloc::new(enc::histogram::ContextType::default()),
        HeapAlloc::new(enc::entropy_encode::HuffmanTree::default()),
        HeapAlloc::new(enc::ZopfliNode::default()),
    )
}

pub enum Encoder {
    I(Internal),
    H(Hybrid),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Internal,
    Hybrid,
}

impl Encoder {
    pub fn new(kind: Kind, opts: DivansCompressorOptions) -> Encoder {
        let m8 = HeapAlloc::<u8>::new(0);
        let m32 = HeapAlloc::<u32>::new(0);
        let mc = HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default());
        match kind {
            Kind::Internal => Encoder::I(<InternalFactory as DivansCompressorFactory<_, _, _>>::new(m8, m32, mc, opts, ())),
            Kind::Hybrid => Encoder::H(<HybridFactory as DivansCompressorFactory<_, _, _>>::new(m8, m32, mc, opts, combined())),
        }
    }
    pub fn encode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        match self {
            Encoder::I(c) => c.encode(i, io, o, oo),
            Encoder::H(c) => c.encode(i, io, o, oo),
        }
    }
    pub fn flush(&mut self, o: &mut [u8], oo: &mut usize) -> DivansOutputResult {
        match self {
            Encoder::I(c) => c.flush(o, oo),
            Encoder::H(c) => c.flush(o, oo),
        }
    }
    pub fn encode_commands<S: SliceWrapper<u8> + Default>(&mut self, cmds: &[Command<S>], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansOutputResult {
        match self {
            Encoder::I(c) => c.encode_commands(cmds, io, o, oo),
            Encoder::H(c) => c.encode_commands(cmds, io, o, oo),
        }
    }
}

pub fn new_decoder(skip_crc: bool, multithread: bool) -> Dec {
    DecFactory::new(
        HeapAlloc::<u8>::new(0),
        HeapAlloc::<DefaultCDF16>::new(DefaultCDF16::default()),
        HeapAlloc::<StaticCommand>::new(StaticCommand::nop()),
        skip_crc,
        multithread,
    )
}

const STALL: usize = 40;
const FILL: u8 = 0xa5;

/// Output sink that hands out windows of a scratch buffer, with a random-looking already-written prefix,
/// and checks the offset and prefix after each call.
pub struct Sink<'a> {
    pub out: Vec<u8>,
    pat: &'a Pat,
    i: usize,
    buf: Vec<u8>,
    lead: usize,
    pub calls: usize,
    stall: usize,
    produced_last: usize,
    zero_out: bool,
}
impl<'a> Sink<'a> {
    pub fn new(pat: &'a Pat, lead: usize) -> Sink<'a> {
        let max = pat.0.iter().max().copied().unwrap_or(1);
        Sink { out: vec![], pat, i: 0, buf: vec![FILL; lead + max], lead, calls: 0, stall: 0, produced_last: 0, zero_out: false }
    }
    /// Run one call on the next window; `f` gets (buffer, offset) and returns how much input it consumed.
    pub fn call<R>(&mut self, f: impl FnOnce(&mut [u8], &mut usize) -> R) -> Result<R, String> {
        let n = self.pat.at(self.i);
        self.i += 1;
        self.calls += 1;
        let end = self.lead + n;
        for b in &mut self.buf[..self.lead] {
            *b = FILL;
        }
        let mut off = self.lead;
        let r = f(&mut self.buf[..end], &mut off);
        if off < self.lead || off > end {
            return Err(format!("offset: output offset moved from {} to {} with buffer length {}", self.lead, off, end));
        }
        if self.buf[..self.lead].iter().any(|b| *b != FILL) {
            return Err("overwrite: bytes before the output offset were modified".into());
        }
        self.produced_last = off - self.lead;
        self.zero_out = n == 0;
        self.out.extend_from_slice(&self.buf[self.lead..off]);
        Ok(r)
    }
    /// Progress accounting: `consumed` input bytes in the last call; errors after too many idle calls.
    pub fn progress(&mut self, consumed: usize, what: &str) -> Result<(), String> {
        if consumed > 0 || self.produced_last > 0 || self.zero_out {
            if !self.zero_out {
                self.stall = 0;
            }
            Ok(())
        } else {
            self.stall += 1;
            if self.stall > STALL {
                Err(format!("stall: {} made no progress in {} calls with output space", what, STALL))
            } else {
                Ok(())
            }
        }
    }
}

pub fn res_name(r: &DivansResult) -> String {
    match r {
        DivansResult::Success => "Success".into(),
        DivansResult::NeedsMoreInput => "NeedsMoreInput".into(),
        DivansResult::NeedsMoreOutput => "NeedsMoreOutput".into(),
        DivansResult::Failure(e) => format!("Failure({:?})", e),
    }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub calls: usize,
}

/// Feed `writes` one by one (each write call gets exactly the remaining part of that write), then flush.
pub fn encode_writes(enc: &mut Encoder, writes: &[&[u8]], out: &Pat, lead: usize) -> Result<Encoded, String> {
    let mut sink = Sink::new(out, lead);
    for w in writes {
        let mut off = 0usize;
        loop {
            let before = off;
            let r = sink.call(|o, oo| enc.encode(w, &mut off, o, oo))?;
            if off < before || off > w.len() {
                return Err(format!("offset: input offset moved from {} to {} of {}", before, off, w.len()));
            }
            match r {
                DivansResult::NeedsMoreInput => {
                    if off == w.len() {
                        break;
                    }
                    // bytes of this write are still unread: every caller offers them again
                    sink.progress(off - before, "encode (asks for input but reads none)")?;
                }
                DivansResult::NeedsMoreOutput => sink.progress(off - before, "encode")?,
                DivansResult::Success => return Err("encode returned Success before flush".into()),
                DivansResult::Failure(e) => return Err(format!("encode-failure: {:?}", e)),
            }
        }
    }
    flush_all(enc, &mut sink)?;
    Ok(Encoded { calls: sink.calls, bytes: sink.out })
}

pub fn flush_all(enc: &mut Encoder, sink: &mut Sink) -> Result<(), String> {
    loop {
        match sink.call(|o, oo| enc.flush(o, oo))? {
            DivansOutputResult::Success => return Ok(()),
            DivansOutputResult::NeedsMoreOutput => sink.progress(0, "flush")?,
            DivansOutputResult::Failure(e) => return Err(format!("flush-failure: {:?}", e)),
        }
    }
}

/// Encode a command list (in slices of `batch` commands), then flush.
pub fn encode_cmds<S: SliceWrapper<u8> + Default>(enc: &mut Encoder, cmds: &[Command<S>], batch: &Pat, out: &Pat, lead: usize) -> Result<Encoded, String> {
    let mut sink = Sink::new(out, lead);
    let mut start = 0;
    let mut bi = 0;
    let empties = batch.0.contains(&0) && batch.0.iter().any(|n| *n > 0);
    while start < cmds.len() || (empties && batch.at(bi) == 0) {
        let n = batch.at(bi).max(if empties { 0 } else { 1 }).min(cmds.len() - start);
        bi += 1;
        let sl = &cmds[start..start + n];
        let mut off = 0;
        loop {
            let before = off;
            let r = sink.call(|o, oo| enc.encode_commands(sl, &mut off, o, oo))?;
            if off < before || off > sl.len() {
                return Err(format!("offset: command offset moved from {} to {} of {}", before, off, sl.len()));
            }
            match r {
                DivansOutputResult::Success => {
                    if off == sl.len() {
                        break;
                    }
                    sink.progress(off - before, "encode_commands")?;
                }
                DivansOutputResult::NeedsMoreOutput => sink.progress(off - before, "encode_commands")?,
                DivansOutputResult::Failure(e) => return Err(format!("encode-failure: {:?}", e)),
            }
        }
        start += n;
    }
    flush_all(enc, &mut sink)?;
    Ok(Encoded { calls: sink.calls, bytes: sink.out })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Success,
    Failure(String),
    /// all input consumed, decoder wants more
    WantsInput,
}
#[derive(Clone, Debug)]
pub struct Decoded {
    pub out: Vec<u8>,
    pub verdict: Verdict,
    pub consumed: usize,
    pub calls: usize,
    /// out-limit reached before any verdict
    pub limited: bool,
}

/// Decode `stream` with the given chunkings until a verdict; `limit` bounds the output volume (malformed input).
pub fn decode_with(dec: &mut impl Decompressor, stream: &[u8], inp: &Pat, out: &Pat, lead: usize, limit: usize) -> Result<Decoded, String> {
    let mut sink = Sink::new(out, lead);
    let mut start = 0;
    let mut ii = 0;
    let mut verdict = Verdict::WantsInput;
    let mut limited = false;
    let mut end = 0;
    let mut idle_inputs = 0;
    'outer: loop {
        if start == end {
            // next input chunk
            if end == stream.len() && ii > 0 {
                break;
            }
            let n = inp.at(ii);
            ii += 1;
            end = (start + n).min(stream.len());
            if n == 0 {
                idle_inputs += 1;
            }
            let _ = idle_inputs;
        }
        loop {
            let chunk = &stream[start..end];
            let mut off = 0usize;
            let r = sink.call(|o, oo| dec.decode(chunk, &mut off, o, oo))?;
            if off > chunk.len() {
                return Err(format!("offset: input offset {} beyond chunk of {}", off, chunk.len()));
            }
            start += off;
            if sink.out.len() > limit {
                limited = true;
                break 'outer;
            }
            match r {
                DivansResult::Success => {
                    verdict = Verdict::Success;
                    break 'outer;
                }
                DivansResult::Failure(e) => {
                    verdict = Verdict::Failure(format!("{:?}", e));
                    break 'outer;
                }
                DivansResult::NeedsMoreInput => {
                    if start == end {
                        break; // fetch more
                    }
                    // unread input remains: the decoder must use it, alone or with more bytes behind it
                    sink.progress(off, "decode (asks for input but reads none)")?;
                    if off == 0 {
                        // the whole rest may be on offer already: then it has to be read, or refused
                        let n = inp.at(ii);
                        ii += 1;
                        end = (end + n).min(stream.len());
                    }
                }
                DivansResult::NeedsMoreOutput => sink.progress(off, "decode")?,
            }
        }
    }
    Ok(Decoded { calls: sink.calls, out: sink.out, verdict, consumed: start, limited })
}

pub fn decode(stream: &[u8], inp: &Pat, out: &Pat, skip_crc: bool, multithread: bool) -> Result<Decoded, String> {
    let mut d = new_decoder(skip_crc, multithread);
    decode_with(&mut d, stream, inp, out, 0, 1 << 30)
}

pub fn compress(kind: Kind, opts: DivansCompressorOptions, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(kind, opts);
    Ok(encode_writes(&mut e, &[data], &Pat::big(), 0)?.bytes)
}

/// First difference between two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let n = a.len().min(b.len());
    let at = (0..n).find(|i| a[*i] != b[*i]).unwrap_or(n);
    format!("lengths {} vs {}, first difference at {}", a.len(), b.len(), at)
}

/// Standard round-trip oracle.
pub fn expect_decoded(d: &Decoded, want: &[u8], stream_len: usize, what: &str) -> Result<(), String> {
    if d.verdict != Verdict::Success {
        return Err(format!("{}: valid stream not decoded: verdict {:?}, {} of {} bytes out, {} of {} bytes read", what, d.verdict, d.out.len(), want.len(), d.consumed, stream_len));
    }
    if d.out != want {
        return Err(format!("{}: decoded bytes differ from the original: {}", what, diff(&d.out, want)));
    }
    if d.consumed != stream_len {
        return Err(format!("{}: decoder reported success after {} of {} stream bytes", what, d.consumed, stream_len));
    }
    Ok(())
}
