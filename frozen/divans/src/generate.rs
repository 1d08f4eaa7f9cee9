//! Not part of the original crate: the decoder run backwards. Every nibble the decoder asks for is chosen by the
//! caller instead of being read, and recorded with its probability range, so that the choices can be turned into a
//! stream that decodes to exactly them.
use std::any::Any;
use std::boxed::Box;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::vec::Vec;
use alloc_stdlib::HeapAlloc;
use codec::{CopyField, DictField, LiteralField, PredField};
use divans_decompressor::{DivansDecompressor, HeaderParser, StaticCommand};
use interface::{ArithmeticEncoderOrDecoder, BillingCapability, BillingDesignation, CrossCommandBilling, Decompressor, DefaultCDF16, DivansResult, NewWithAllocator, Nop, ReadableBytes, WritableBytes};
use probability::{CDF16, ProbRange};

/// What the decoder is about to read.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Field {
    Command,
    CopySmall, CopyFirst, CopyBig, CopyMantissa, DistMnemonic, DistFirst, DistBig, DistMantissa,
    DictSize, DictSizeBig, DictIndex, DictTrHigh, DictTrLow,
    LitSmall, LitFirst, LitBig, LitMantissa, LitByte,
    Block,
    PmMode, PmDynamic, PmDepth, PmSpeed, MapMnemonic(bool), MapFirst, MapSecond, Mix,
    Other,
}

struct Gen {
    choose: Box<FnMut(Field, &mut FnMut(u8) -> u16) -> Option<u8>>,
    log: [Vec<(u16, u16)>; 2],
    made: usize,
}
thread_local! { static GEN: RefCell<Option<Gen>> = RefCell::new(None); }
struct Enough;

pub struct Coder(usize);
impl<A: ::alloc::Allocator<u8>> NewWithAllocator<A> for Coder {
    fn new(_: &mut A) -> Self {
        GEN.with(|g| {
            let mut g = g.borrow_mut();
            let g = g.as_mut().unwrap();
            g.made += 1;
            Coder(g.made - 1)
        })
    }
    fn free(&mut self, _: &mut A) {}
}
impl BillingCapability for Coder {}
fn field(b: BillingDesignation) -> Field {
    match b {
        BillingDesignation::CrossCommand(CrossCommandBilling::FullSelection) => Field::Command,
        BillingDesignation::CrossCommand(CrossCommandBilling::BlockSwitchType) => Field::Block,
        BillingDesignation::CopyCommand(c) => match c {
            CopyField::CountSmall => Field::CopySmall,
            CopyField::CountLengthFirst => Field::CopyFirst,
            CopyField::CountLengthGreater18Less25 => Field::CopyBig,
            CopyField::CountMantissaNibbles(..) => Field::CopyMantissa,
            CopyField::DistanceLengthMnemonic => Field::DistMnemonic,
            CopyField::DistanceLengthFirst => Field::DistFirst,
            CopyField::DistanceLengthGreater14Less25 => Field::DistBig,
            CopyField::DistanceMantissaNibbles(..) => Field::DistMantissa,
            _ => Field::Other,
        },
        BillingDesignation::DictCommand(c) => match c {
            DictField::WordSizeFirst => Field::DictSize,
            DictField::WordSizeGreater18Less25 => Field::DictSizeBig,
            DictField::WordIndexMantissa(..) => Field::DictIndex,
            DictField::TransformHigh => Field::DictTrHigh,
            DictField::TransformLow => Field::DictTrLow,
            _ => Field::Other,
        },
        BillingDesignation::LiteralCommand(c) => match c {
            LiteralField::LiteralCountSmall(..) => Field::LitSmall,
            LiteralField::LiteralCountFirst => Field::LitFirst,
            LiteralField::LiteralCountLengthGreater14Less25 => Field::LitBig,
            LiteralField::LiteralCountMantissaNibbles(..) => Field::LitMantissa,
            LiteralField::LiteralNibbleIndex(..) => Field::LitByte,
            _ => Field::Other,
        },
        BillingDesignation::PredModeCtxMap(c) => match c {
            PredField::Begin => Field::PmMode,
            PredField::DynamicContextMixing => Field::PmDynamic,
            PredField::PriorDepth(..) => Field::PmDepth,
            PredField::AdaptationSpeed(..) | PredField::FullyDecoded => Field::PmSpeed,
            PredField::ContextMapMnemonic(_, t, _) => Field::MapMnemonic(t as usize != 0),
            PredField::ContextMapFirstNibble(..) => Field::MapFirst,
            PredField::ContextMapSecondNibble(..) => Field::MapSecond,
            PredField::MixingValues(..) => Field::Mix,
            _ => Field::Other,
        },
        _ => Field::Other,
    }
}
impl ArithmeticEncoderOrDecoder for Coder {
    fn mov(&mut self) -> Self {
        Coder(self.0)
    }
    fn drain_or_fill_internal_buffer_unchecked(&mut self, input: &mut ReadableBytes, _output: &mut WritableBytes) -> DivansResult {
        *input.read_offset = input.data.len();
        DivansResult::Success
    }
    fn has_data_to_drain_or_fill(&self) -> bool {
        true
    }
    fn get_or_put_bit_without_billing(&mut self, _: &mut bool, _: u8) {
        unreachable!()
    }
    fn get_or_put_nibble_without_billing<C: CDF16>(&mut self, nibble: &mut u8, prob: &C) -> ProbRange {
        self.get_or_put_nibble(nibble, prob, BillingDesignation::Unknown)
    }
    fn get_or_put_nibble<C: CDF16>(&mut self, nibble: &mut u8, prob: &C, billing: BillingDesignation) -> ProbRange {
        let id = self.0;
        let r = GEN.with(|g| {
            let mut g = g.borrow_mut();
            let g = g.as_mut().unwrap();
            // 0 for what a decoder cannot be made to read: hostile adaptation speeds lead to tables whose ranges overlap
            let mut freq = |s: u8| {
                let r = prob.sym_to_start_and_freq(s).range;
                let (a, n) = (i32::from(r.start), i32::from(r.freq));
                if n > 0 && a >= 0 && a + n <= 1 << ::probability::LOG2_SCALE
                    && prob.cdf_offset_to_sym_start_and_freq(a as ::probability::Prob).sym == s
                    && prob.cdf_offset_to_sym_start_and_freq((a + n - 1) as ::probability::Prob).sym == s {
                    r.freq as u16
                } else {
                    0
                }
            };
            match (g.choose)(field(billing), &mut freq) {
                None => None,
                Some(v) => {
                    let v = v & 15;
                    let range = prob.sym_to_start_and_freq(v).range;
                    g.log[id & 1].push((range.start as u16, range.freq as u16));
                    Some((v, range))
                }
            }
        });
        match r {
            None => resume_unwind(Box::new(Enough)),
            Some((v, range)) => {
                *nibble = v;
                range
            }
        }
    }
    fn close(&mut self) -> DivansResult {
        DivansResult::Success
    }
}

pub struct Outcome {
    /// probability ranges read from the command and from the literal sub-stream
    pub log: [Vec<(u16, u16)>; 2],
    /// what the decoder wrote
    pub out: Vec<u8>,
    /// the decoder reached the end command and was content
    pub complete: bool,
    /// the decoder panicked, other than by running out of choices
    pub panic: Option<Box<Any + Send>>,
}

/// Runs the serial decoder over the choices, to the end command, an error, the end of the choices or max_out bytes.
pub fn generate(window: u8, max_out: usize, choose: Box<FnMut(Field, &mut FnMut(u8) -> u16) -> Option<u8>>) -> Outcome {
    GEN.with(|g| *g.borrow_mut() = Some(Gen { choose: choose, log: [Vec::new(), Vec::new()], made: 0 }));
    let mut out = Vec::new();
    let mut complete = false;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d: DivansDecompressor<Coder, HeapAlloc<u8>, HeapAlloc<DefaultCDF16>, HeapAlloc<StaticCommand>> = DivansDecompressor::Header(HeaderParser {
            header: [0u8; ::interface::HEADER_LENGTH],
            read_offset: 0,
            m8: Some(HeapAlloc::new(0)),
            mcdf16: Some(HeapAlloc::new(DefaultCDF16::default())),
            mcommand: Some(HeapAlloc::new(StaticCommand::nop())),
            skip_crc: true,
            multithread: false,
        });
        let mut st = ::std::vec![0xff, 0xe5, 0x8c, 0x9f, 0, window, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        st.extend_from_slice(&[0, 0, 0, 0, 1, 0, 0, 0, 0xff, 0xfe, 0xff, 0, 0, 0, 0, b'a', b'n', b's', b'~']);
        let mut pos = 0;
        let mut buf = ::std::vec![0u8; 65536];
        let mut idle = 0;
        loop {
            let mut o = 0;
            let before = pos;
            let r = d.decode(&st, &mut pos, &mut buf, &mut o);
            out.extend_from_slice(&buf[..o]);
            match r {
                DivansResult::Success => {
                    complete = true;
                    return;
                }
                DivansResult::Failure(_) => return,
                _ => {}
            }
            if out.len() > max_out {
                return;
            }
            if o == 0 && pos == before {
                idle += 1;
                if idle > 3 {
                    return;
                }
            }
        }
    }));
    let log = GEN.with(|g| g.borrow_mut().take().unwrap().log);
    let panic = match r {
        Ok(()) => None,
        Err(e) => if e.is::<Enough>() { None } else { Some(e) },
    };
    Outcome { log: log, out: out, complete: complete, panic: panic }
}
