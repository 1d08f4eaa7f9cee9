//! P08 (C API contract) and P18 (memory through the C API), both through the crate's exported C functions, called
//! from C code compiled against its header when that compiles.
use crate::drive::{self, expect_decoded, Decoded, Encoder, Kind, Sink, Verdict};
use crate::gen::{self, pat, Pat};
use crate::props::core::split;
use crate::runner::{Ctx, Prop};
use crate::src::{Rng, Src};
use divans::{BrotliCompressionSetting, DivansCompressorOptions, DivansOutputResult, DivansResult, LiteralPredictionModeNibble, Speed, StrideSelection};
use std::collections::HashMap;
use std::os::raw::c_void;
use std::sync::Mutex;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P08", quick: 1800, thorough: 120000, rule: P08_RULE, case: p08, cpu_limit: 120, spawns: false, mem_mb: 6000, exhaustive: false },
        Prop { id: "P18", quick: 5000, thorough: 80000, rule: P18_RULE, case: p18, cpu_limit: 120, spawns: false, mem_mb: 6000, exhaustive: false },
    ]
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CAlloc {
    alloc: Option<extern "C" fn(*mut c_void, usize) -> *mut c_void>,
    free: Option<extern "C" fn(*mut c_void, *mut c_void)>,
    opaque: *mut c_void,
}

#[cfg(header_ok)]
mod api {
    use super::CAlloc;
    use std::os::raw::c_void;
    extern "C" {
        fn shim_new_c() -> *mut c_void;
        fn shim_new_c_alloc(a: *const CAlloc) -> *mut c_void;
        fn shim_set(s: *mut c_void, sel: u8, v: u32) -> u8;
        fn shim_encode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
        fn shim_flush(s: *mut c_void, o: *mut u8, m: usize, oo: *mut usize) -> u8;
        fn shim_free_c(s: *mut c_void);
        fn shim_new_d() -> *mut c_void;
        fn shim_new_d_alloc(a: *const CAlloc, skip: u8, mt: u8) -> *mut c_void;
        fn shim_decode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8;
        fn shim_free_d(s: *mut c_void);
        fn shim_const(k: u32) -> u32;
    }
    pub const FROM_C: bool = true;
    pub unsafe fn new_c() -> *mut c_void {
        shim_new_c()
    }
    pub unsafe fn new_c_alloc(a: &CAlloc) -> *mut c_void {
        shim_new_c_alloc(a)
    }
    pub unsafe fn set(s: *mut c_void, sel: u8, v: u32) -> u8 {
        shim_set(s, sel, v)
    }
    pub unsafe fn encode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        shim_encode(s, i, n, io, o, m, oo)
    }
    pub unsafe fn flush(s: *mut c_void, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        shim_flush(s, o, m, oo)
    }
    pub unsafe fn free_c(s: *mut c_void) {
        shim_free_c(s)
    }
    pub unsafe fn new_d() -> *mut c_void {
        shim_new_d()
    }
    pub unsafe fn new_d_alloc(a: &CAlloc, skip: u8, mt: u8) -> *mut c_void {
        shim_new_d_alloc(a, skip, mt)
    }
    pub unsafe fn decode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        shim_decode(s, i, n, io, o, m, oo)
    }
    pub unsafe fn free_d(s: *mut c_void) {
        shim_free_d(s)
    }
    pub fn constant(k: u32) -> Option<u32> {
        Some(unsafe { shim_const(k) })
    }
}
#[cfg(not(header_ok))]
mod api {
    use super::CAlloc;
    use divans::*;
    use std::mem::transmute as t;
    use std::os::raw::c_void;
    pub const FROM_C: bool = false;
    pub unsafe fn new_c() -> *mut c_void {
        divans_new_compressor() as *mut c_void
    }
    pub unsafe fn new_c_alloc(a: &CAlloc) -> *mut c_void {
        divans_new_compressor_with_custom_alloc(t(*a)) as *mut c_void
    }
    pub unsafe fn set(s: *mut c_void, sel: u8, v: u32) -> u8 {
        divans_set_option(s as *mut _, sel, v)
    }
    pub unsafe fn encode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        divans_encode(s as *mut _, i, n, io, o, m, oo)
    }
    pub unsafe fn flush(s: *mut c_void, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        divans_encode_flush(s as *mut _, o, m, oo)
    }
    pub unsafe fn free_c(s: *mut c_void) {
        divans_free_compressor(s as *mut _)
    }
    pub unsafe fn new_d() -> *mut c_void {
        divans_new_decompressor() as *mut c_void
    }
    pub unsafe fn new_d_alloc(a: &CAlloc, skip: u8, mt: u8) -> *mut c_void {
        divans_new_decompressor_with_custom_alloc(t(*a), skip, mt) as *mut c_void
    }
    pub unsafe fn decode(s: *mut c_void, i: *const u8, n: usize, io: *mut usize, o: *mut u8, m: usize, oo: *mut usize) -> u8 {
        divans_decode(s as *mut _, i, n, io, o, m, oo)
    }
    pub unsafe fn free_d(s: *mut c_void) {
        divans_free_decompressor(s as *mut _)
    }
    pub fn constant(_: u32) -> Option<u32> {
        None
    }
}

const OK: u8 = 0;
const MORE_IN: u8 = 1;
const MORE_OUT: u8 = 2;
const FAIL: u8 = 3;

// ------------------------------------------------------------------------------------------ guarded memory

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut c_void, n: usize) -> i32;
}
const PAGE: usize = 4096;
fn map(pages: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), pages * PAGE, 3, 0x22, -1, 0) };
    if p as isize == -1 {
        panic!("harness: mmap of {} pages", pages);
    }
    p as *mut u8
}

/// A window with inaccessible pages on both sides; `slot` places an area against either end.
pub struct Fence {
    base: *mut u8,
    cap: usize,
}
impl Fence {
    pub fn new(cap: usize) -> Fence {
        let pages = (cap + PAGE - 1) / PAGE + 2;
        let base = map(pages);
        unsafe {
            mprotect(base as *mut c_void, PAGE, 0);
            mprotect(base.add((pages - 1) * PAGE) as *mut c_void, PAGE, 0);
        }
        Fence { base, cap: (pages - 2) * PAGE }
    }
    pub fn slot(&mut self, n: usize, low: bool) -> *mut u8 {
        assert!(n <= self.cap);
        unsafe { self.base.add(PAGE + if low { 0 } else { self.cap - n }) }
    }
}
impl Drop for Fence {
    fn drop(&mut self) {
        unsafe { munmap(self.base as *mut c_void, self.cap + 2 * PAGE) };
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// guard bytes around each block, freed blocks kept and checked for later writes
    Guard,
    /// each block against an inaccessible page, freed blocks made inaccessible
    PagesEnd,
    PagesStart,
}
struct Block {
    size: usize,
    raw: *mut u8,
    total: usize,
}
struct Inner {
    live: HashMap<usize, Block>,
    kept: Vec<(usize, Block)>,
    kept_bytes: usize,
    freed: HashMap<usize, ()>,
    errs: Vec<String>,
    allocs: usize,
    bytes: usize,
    rng: Rng,
}
pub struct Tracker {
    mode: Mode,
    m: Mutex<Inner>,
}
unsafe impl Send for Tracker {}
unsafe impl Sync for Tracker {}
const G: usize = 64;
const GUARD: u8 = 0xb7;
const DEAD: u8 = 0xdd;
impl Tracker {
    fn new(mode: Mode, seed: u64) -> Box<Tracker> {
        Box::new(Tracker {
            mode,
            m: Mutex::new(Inner { live: HashMap::new(), kept: vec![], kept_bytes: 0, freed: HashMap::new(), errs: vec![], allocs: 0, bytes: 0, rng: Rng::new(seed) }),
        })
    }
    fn calloc(&self) -> CAlloc {
        CAlloc { alloc: Some(t_alloc), free: Some(t_free), opaque: self as *const Tracker as *mut c_void }
    }
    fn alloc(&self, size: usize) -> *mut u8 {
        let mut g = self.m.lock().unwrap();
        g.allocs += 1;
        g.bytes += size;
        if size > 3 << 30 {
            g.errs.push(format!("size: allocation of {} bytes", size));
        }
        let (raw, total, p);
        // no promise about the contents: anything but zero
        let fill = 1 + g.rng.below(255) as u8;
        match self.mode {
            Mode::Guard => {
                total = size + 2 * G;
                let l = std::alloc::Layout::from_size_align(total, 64).unwrap();
                raw = unsafe { std::alloc::alloc(l) };
                p = unsafe { raw.add(G) };
                unsafe {
                    std::ptr::write_bytes(raw, GUARD, G);
                    std::ptr::write_bytes(p, fill, size);
                    std::ptr::write_bytes(p.add(size), GUARD, G);
                }
            }
            _ => {
                let pages = (size + PAGE - 1) / PAGE;
                total = (pages + 2) * PAGE;
                raw = map(pages + 2);
                let room = pages * PAGE;
                let at = if self.mode == Mode::PagesStart { 0 } else { (room - size) & !31 };
                unsafe {
                    std::ptr::write_bytes(raw.add(PAGE), GUARD, room);
                    mprotect(raw as *mut c_void, PAGE, 0);
                    mprotect(raw.add(PAGE + room) as *mut c_void, PAGE, 0);
                    p = raw.add(PAGE + at);
                    std::ptr::write_bytes(p, fill, size);
                }
            }
        }
        g.freed.remove(&(p as usize));
        g.live.insert(p as usize, Block { size, raw, total });
        p
    }
    fn check_guard(mode: Mode, p: usize, b: &Block) -> Option<String> {
        let (lo, hi) = match mode {
            Mode::Guard => (b.raw as usize, b.raw as usize + b.total),
            _ => (b.raw as usize + PAGE, b.raw as usize + b.total - PAGE),
        };
        for a in (lo..p).chain(p + b.size..hi) {
            let v = unsafe { *(a as *const u8) };
            if v != GUARD {
                return Some(format!("bounds: a byte {} was written at offset {} of a block of {} bytes", v, a as isize - p as isize, b.size));
            }
        }
        None
    }
    fn free(&self, p: *mut u8) {
        let mut g = self.m.lock().unwrap();
        let a = p as usize;
        match g.live.remove(&a) {
            None => {
                let e = if g.freed.contains_key(&a) { "double free: a block was freed twice" } else { "foreign free: a pointer not from the allocator was freed" };
                g.errs.push(e.into());
            }
            Some(b) => {
                if let Some(e) = Self::check_guard(self.mode, a, &b) {
                    g.errs.push(e);
                }
                g.freed.insert(a, ());
                match self.mode {
                    Mode::Guard => {
                        unsafe { std::ptr::write_bytes(p, DEAD, b.size) };
                        g.kept_bytes += b.total;
                        g.kept.push((a, b));
                        while g.kept_bytes > 96 << 20 {
                            let (a, b) = g.kept.remove(0);
                            g.kept_bytes -= b.total;
                            Self::release(&mut g, a, b);
                        }
                    }
                    _ => unsafe {
                        // address space only: the pages themselves are given back
                        munmap(b.raw as *mut c_void, b.total);
                        let q = mmap(b.raw as *mut c_void, b.total, 0, 0x22 | 0x10 | 0x4000, -1, 0);
                        assert_eq!(q as usize, b.raw as usize);
                        g.kept_bytes += b.total;
                        g.kept.push((a, b));
                        while g.kept_bytes > 1 << 30 {
                            let (_, b) = g.kept.remove(0);
                            g.kept_bytes -= b.total;
                            munmap(b.raw as *mut c_void, b.total);
                        }
                    },
                }
            }
        }
    }
    fn release(g: &mut Inner, a: usize, b: Block) {
        for i in 0..b.size {
            let v = unsafe { *((a + i) as *const u8) };
            if v != DEAD {
                g.errs.push(format!("use after free: a byte was written at offset {} of a freed block of {} bytes", i, b.size));
                break;
            }
        }
        unsafe { std::alloc::dealloc(b.raw, std::alloc::Layout::from_size_align(b.total, 64).unwrap()) };
    }
    /// Everything must have come back; also releases what is kept.
    fn finish(&self) -> Result<(usize, usize), String> {
        let mut g = self.m.lock().unwrap();
        let kept = std::mem::take(&mut g.kept);
        for (a, b) in kept {
            match self.mode {
                Mode::Guard => Self::release(&mut g, a, b),
                _ => {
                    unsafe { munmap(b.raw as *mut c_void, b.total) };
                }
            }
        }
        let mut left: Vec<usize> = g.live.values().map(|b| b.size).collect();
        left.sort();
        let live = std::mem::take(&mut g.live);
        for (a, b) in live {
            if let Some(e) = Self::check_guard(self.mode, a, &b) {
                g.errs.push(e);
            }
            match self.mode {
                Mode::Guard => unsafe { std::alloc::dealloc(b.raw, std::alloc::Layout::from_size_align(b.total, 64).unwrap()) },
                _ => {
                    unsafe { munmap(b.raw as *mut c_void, b.total) };
                }
            }
        }
        if let Some(e) = g.errs.first() {
            return Err(e.clone());
        }
        if !left.is_empty() {
            left.truncate(12);
            return Err(format!("leak: blocks not freed with the handle, sizes {:?}", left));
        }
        Ok((g.allocs, g.bytes))
    }
}
extern "C" fn t_alloc(o: *mut c_void, n: usize) -> *mut c_void {
    crate::heap::unwatched(|| unsafe { (*(o as *const Tracker)).alloc(n) as *mut c_void })
}
extern "C" fn t_free(o: *mut c_void, p: *mut c_void) {
    if !p.is_null() {
        crate::heap::unwatched(|| unsafe { (*(o as *const Tracker)).free(p as *mut u8) })
    }
}

// ------------------------------------------------------------------------------------------ options

/// What set_option must answer, and its effect, written from the documentation of the options.
/// `certain` is dropped where the documentation does not say what a value means.
struct OptModel {
    o: DivansCompressorOptions,
    certain: bool,
}
fn stride(v: u32) -> Option<StrideSelection> {
    Some(match v {
        0 => StrideSelection::PriorDisabled,
        1 => StrideSelection::Stride1,
        2 => StrideSelection::Stride2,
        3 => StrideSelection::Stride3,
        4 => StrideSelection::Stride4,
        5 => StrideSelection::Stride5,
        6 => StrideSelection::Stride6,
        7 => StrideSelection::Stride7,
        8 => StrideSelection::Stride8,
        _ => return None,
    })
}
impl OptModel {
    /// Some(true): must be accepted; Some(false): must be refused; None: either, and the effect is not modelled.
    fn apply(&mut self, sel: u8, v: u32) -> Option<bool> {
        let o = &mut self.o;
        let small = v < 256;
        let adapt = |o: &mut DivansCompressorOptions, i: usize| -> bool {
            match Speed::ENCODER_DEFAULT_PALETTE.get(v as usize) {
                None => false,
                Some(s) => {
                    match o.literal_adaptation {
                        None => o.literal_adaptation = Some([*s; 4]),
                        Some(ref mut a) => a[i] = *s,
                    }
                    true
                }
            }
        };
        match sel {
            1 if v <= 11 => o.quality = Some(v as u16),
            2 if v >= 10 && v <= 24 => o.window_size = Some(v as i32),
            3 if v >= 16 && v <= 24 => o.lgblock = Some(v),
            4 if v <= 7 => o.dynamic_context_mixing = Some(v as u8),
            4 => return if v < 256 { Some(false) } else { None },
            5 => {
                o.use_brotli = match v {
                    0 => BrotliCompressionSetting::UseInternalCommandSelection,
                    1 => BrotliCompressionSetting::UseBrotliCommandSelection,
                    2 => BrotliCompressionSetting::UseBrotliBitstream,
                    _ => return Some(false),
                }
            }
            6 => {
                if v != 1 {
                    return Some(false);
                }
                o.use_brotli = BrotliCompressionSetting::UseBrotliBitstream
            }
            7 => {
                if v > 1 {
                    return Some(false);
                }
                o.use_context_map = v == 1
            }
            8 => return Some(adapt(o, 3)),
            9 => match stride(v) {
                Some(s) => o.force_stride_value = s,
                None => return Some(false),
            },
            10 if v < 5 => o.stride_detection_quality = Some(v as u8),
            11 if small => o.prior_depth = Some(v as u8),
            12 => return Some(adapt(o, 1)),
            13 => return Some(adapt(o, 2)),
            14 => return Some(adapt(o, 0)),
            15 if v <= 2000 => o.brotli_literal_byte_score = Some(v),
            16 if v < 5 => o.speed_detection_quality = Some(v as u8),
            17 if v < 4 => o.prior_bitmask_detection = v as u8,
            18 if v <= 1 => o.q9_5 = v == 1,
            19 if v <= 3 => o.force_literal_context_mode = Some(LiteralPredictionModeNibble(v as u8)),
            20 if v <= 1 => o.divans_ir_optimizer = v as u8,
            1..=20 => {
                self.certain = false;
                return None;
            }
            _ => return Some(false),
        }
        Some(true)
    }
}

fn opt_value(s: &mut Src, sel: u8) -> u32 {
    let v = opt_any(s, sel);
    // larger scores overflow inside the brotli crate's match finder
    if sel == 15 && v > 1000 {
        return 1000;
    }
    v
}
fn opt_any(s: &mut Src, sel: u8) -> u32 {
    match s.weighted(&[12, 3, 1]) {
        0 => match sel {
            1 => s.range(0, 9) as u32,
            2 => s.range(10, 24) as u32,
            3 => s.range(16, 20) as u32,
            4 => s.range(0, 7) as u32,
            5 => s.range(0, 2) as u32,
            6 => 1,
            7 => s.range(0, 1) as u32,
            8 | 12 | 13 | 14 => s.range(0, 14) as u32,
            9 => s.range(0, 8) as u32,
            10 => s.range(0, 2) as u32,
            15 => *s.pick(&[0u32, 1, 40, 135, 340, 540, 1000]),
            16 => s.range(0, 3) as u32,
            17 => s.range(0, 1) as u32,
            19 => s.range(0, 3) as u32,
            _ => s.range(0, 1) as u32,
        },
        1 => s.range(0, 40) as u32,
        _ => *s.pick(&[8u32, 9, 15, 16, 99, 255, 256, 65535, 65536, 1 << 31, u32::MAX]),
    }
}

/// Set random options; checks the answers.
fn set_options(c: &mut Ctx, h: *mut c_void, n: usize, log: &mut String) -> Result<OptModel, String> {
    let mut m = OptModel { o: DivansCompressorOptions::default(), certain: true };
    let mut list = vec![];
    for _ in 0..n {
        let sel = match c.s.weighted(&[14, 1]) {
            0 => 1 + c.s.usize(20) as u8,
            _ => *c.s.pick(&[0u8, 21, 22, 30, 99, 127, 128, 200, 255]),
        };
        list.push((sel, opt_value(&mut c.s, sel)));
    }
    // keep the cost of a case down
    if c.s.chance(5, 6) {
        list.push((2, c.s.range(10, 18) as u32));
    }
    for (sel, v) in list {
        let r = unsafe { api::set(h, sel, v) };
        c.checks += 1;
        *log += &format!("{}={}:{} ", sel, v, r);
        let want = m.apply(sel, v);
        match want {
            Some(true) if r != OK => return Err(format!("option: setting option {} to {} answered {}", sel, v, r)),
            Some(false) if r != FAIL => return Err(format!("option: setting option {} to {} answered {} instead of a failure", sel, v, r)),
            None if r == FAIL => {
                // refused: no effect
            }
            None if r != OK => return Err(format!("option: setting option {} to {} answered {}", sel, v, r)),
            None => c.class("unusual option value accepted"),
            _ => {}
        }
    }
    Ok(m)
}

// ------------------------------------------------------------------------------------------ drivers

const FILL: u8 = 0xa5;
struct Bufs {
    inp: Fence,
    out: Fence,
    low: bool,
}
impl Bufs {
    fn new(n: usize, m: usize, low: bool) -> Bufs {
        Bufs { inp: Fence::new(n.max(1)), out: Fence::new(m.max(1) + 8), low }
    }
    /// One call: input copied into fenced memory, output window fenced, offsets checked.  Returns (code, used, produced).
    fn call(
        &mut self, input: &[u8], room: usize, lead: usize, f: &mut dyn FnMut(*const u8, usize, *mut usize, *mut u8, usize, *mut usize) -> u8,
    ) -> Result<(u8, usize, Vec<u8>), String> {
        let ip = self.inp.slot(input.len(), self.low);
        let m = room + lead;
        let op = self.out.slot(m, self.low);
        unsafe {
            std::ptr::copy_nonoverlapping(input.as_ptr(), ip, input.len());
            std::ptr::write_bytes(op, FILL, m);
        }
        let (mut io, mut oo) = (0usize, lead);
        crate::heap::on(true);
        let r = f(ip, input.len(), &mut io, op, m, &mut oo);
        crate::heap::on(false);
        let o = unsafe { std::slice::from_raw_parts(op, m) };
        if io > input.len() {
            return Err(format!("offset: input offset {} of {}", io, input.len()));
        }
        if oo < lead || oo > m {
            return Err(format!("offset: output offset went from {} to {} of {}", lead, oo, m));
        }
        if o[..lead].iter().any(|b| *b != FILL) {
            return Err("overwrite: bytes before the output offset were modified".into());
        }
        if unsafe { std::slice::from_raw_parts(ip, input.len()) } != input {
            return Err("overwrite: the input was modified".into());
        }
        if r > 3 {
            return Err(format!("status: returned {}", r));
        }
        Ok((r, io, o[lead..oo].to_vec()))
    }
}

struct Stop(usize);
impl Stop {
    /// True when the handle is to be freed now.
    fn hit(&mut self) -> bool {
        if self.0 == 0 {
            return true;
        }
        self.0 -= 1;
        false
    }
}

/// Encode writes and flush; None when stopped early.
fn c_encode(h: *mut c_void, writes: &[&[u8]], op: &Pat, b: &mut Bufs, lead: usize, stop: &mut Stop, checks: &mut u64, refuse: bool) -> Result<Option<Vec<u8>>, String> {
    let mut out = vec![];
    let mut i = 0;
    let mut idle = 0;
    for w in writes {
        let mut at = 0;
        loop {
            if stop.hit() {
                return Ok(None);
            }
            let m = op.at(i);
            i += 1;
            let (r, used, got) = b.call(&w[at..], m, lead, &mut |a, n, io, o, m, oo| unsafe { api::encode(h, a, n, io, o, m, oo) })?;
            at += used;
            out.extend_from_slice(&got);
            *checks += 1;
            if refuse {
                let r = unsafe { api::set(h, 1 + (i % 20) as u8, (i % 9) as u32) };
                if r != FAIL {
                    return Err(format!("option: set after encoding started answered {}", r));
                }
            }
            match r {
                FAIL => return Err("encode: failure status".into()),
                MORE_IN | OK if at < w.len() => return Err(format!("encode: status {} with {} of {} bytes taken", r, at, w.len())),
                MORE_IN | OK => break,
                _ => {}
            }
            if used == 0 && got.is_empty() && m > 0 {
                idle += 1;
                if idle > 40 {
                    return Err("stall: encode makes no progress".into());
                }
            } else if m > 0 {
                idle = 0;
            }
        }
    }
    idle = 0;
    loop {
        if stop.hit() {
            return Ok(None);
        }
        let m = op.at(i);
        i += 1;
        let (r, _, got) = b.call(&[], m, lead, &mut |_, _, _, o, m, oo| unsafe { api::flush(h, o, m, oo) })?;
        out.extend_from_slice(&got);
        *checks += 1;
        match r {
            OK => return Ok(Some(out)),
            MORE_OUT => {}
            _ => return Err(format!("flush: status {}", r)),
        }
        if got.is_empty() && m > 0 {
            idle += 1;
            if idle > 40 {
                return Err("stall: flush makes no progress".into());
            }
        } else if m > 0 {
            idle = 0;
        }
    }
}

/// The same schedule through the Rust interface.
fn r_encode(kind: Kind, o: DivansCompressorOptions, writes: &[&[u8]], op: &Pat, lead: usize) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new(kind, o);
    let mut sink = Sink::new(op, lead);
    for w in writes {
        let mut off = 0;
        loop {
            match sink.call(|o, oo| e.encode(w, &mut off, o, oo))? {
                DivansResult::Failure(m) => return Err(format!("reference: {:?}", m)),
                DivansResult::NeedsMoreOutput => {}
                _ => break,
            }
        }
    }
    loop {
        match sink.call(|o, oo| e.flush(o, oo))? {
            DivansOutputResult::Success => return Ok(std::mem::take(&mut sink.out)),
            DivansOutputResult::NeedsMoreOutput => {}
            DivansOutputResult::Failure(m) => return Err(format!("reference: {:?}", m)),
        }
    }
}

/// The C decompressor as a decoder for the common driver.
struct CDec<'a> {
    h: *mut c_void,
    b: &'a mut Bufs,
    stop: Stop,
    stopped: bool,
    broken: Option<String>,
    calls: u64,
}
impl<'a> divans::Decompressor for CDec<'a> {
    fn decode(&mut self, i: &[u8], io: &mut usize, o: &mut [u8], oo: &mut usize) -> DivansResult {
        let bad = DivansResult::Failure(divans::ErrMsg::UnexpectedEof);
        if self.broken.is_some() || self.stop.hit() {
            self.stopped = true;
            return bad;
        }
        self.calls += 1;
        let h = self.h;
        let lead = *oo;
        match self.b.call(&i[*io..], o.len() - lead, lead, &mut |a, n, io, o, m, oo| unsafe { api::decode(h, a, n, io, o, m, oo) }) {
            Err(e) => {
                self.broken = Some(e);
                bad
            }
            Ok((r, used, got)) => {
                *io += used;
                o[lead..lead + got.len()].copy_from_slice(&got);
                *oo += got.len();
                match r {
                    OK => DivansResult::Success,
                    MORE_IN => DivansResult::NeedsMoreInput,
                    MORE_OUT => DivansResult::NeedsMoreOutput,
                    _ => {
                        // a failure is final
                        match self.b.call(&[], 16, 0, &mut |a, n, io, o, m, oo| unsafe { api::decode(h, a, n, io, o, m, oo) }) {
                            Ok((FAIL, _, g)) if g.is_empty() => {}
                            Ok((r, _, g)) => self.broken = Some(format!("status: decode answered {} with {} bytes after a failure", r, g.len())),
                            Err(e) => self.broken = Some(e),
                        }
                        bad
                    }
                }
            }
        }
    }
}
fn c_decode(h: *mut c_void, stream: &[u8], ip: &Pat, op: &Pat, b: &mut Bufs, lead: usize, limit: usize, stop: Stop, checks: &mut u64) -> Result<Option<Decoded>, String> {
    let mut d = CDec { h, b, stop, stopped: false, broken: None, calls: 0 };
    let r = drive::decode_with(&mut d, stream, ip, op, lead, limit);
    *checks += d.calls;
    if let Some(e) = d.broken {
        return Err(e);
    }
    if d.stopped {
        return Ok(None);
    }
    r.map(Some)
}

// ------------------------------------------------------------------------------------------ P08

const P08_RULE: &str = "case = a C-API history: compressor with or without a caller's allocator, 0 to 12 option settings drawn over known, refused and unknown selectors and values (answers checked against a table), null handles and null offset pointers, writes and flush with any output buffer sizes in memory fenced by inaccessible pages, options set after the start; the stream must equal the one the Rust interface makes with the modelled options and decode to the input; then decode calls on it or a damaged copy, compared with the Rust decoder; calls go through C code compiled against c/divans/ffi.h; non-trivial: at least 32 bytes of data and at least one option set";

fn p08(c: &mut Ctx) -> Result<(), String> {
    if !api::FROM_C {
        return Err("header: C code written against c/divans/ffi.h does not compile".into());
    }
    let want = [0u32, 1, 2, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
    for (i, w) in want.iter().enumerate() {
        if let Some(v) = api::constant(i as u32) {
            if v != *w {
                return Err(format!("header: constant {} is {}, the library uses {}", i, v, w));
            }
        }
    }
    let lim = match c.s.weighted(&[6, 3, 1]) {
        0 => 2000,
        1 => 20_000,
        _ => 120_000,
    };
    let d = gen::data(&mut c.s, lim);
    let wp = pat(&mut c.s, d.bytes.len(), 2000);
    let op = pat(&mut c.s, d.bytes.len(), 2000);
    let dp = pat(&mut c.s, d.bytes.len(), 2000);
    let ip = pat(&mut c.s, d.bytes.len(), 2000);
    let custom = c.s.chance(1, 2);
    let lead = c.s.usize(4);
    let low = c.s.chance(1, 3);
    let nopt = c.s.usize(13);
    let refuse = c.s.chance(1, 3);
    let maxw = wp.0.iter().max().copied().unwrap_or(1).min(d.bytes.len() + 1);
    let mut b = Bufs::new(maxw.max(d.bytes.len()).max(70000), op.0.iter().chain(dp.0.iter()).max().copied().unwrap_or(1), low);
    let tr = Tracker::new(Mode::Guard, c.s.u64());
    let mut log = String::new();
    let desc = format!("{} bytes, writes {:?}, out {:?}, decode in {:?} out {:?}, custom allocator {}", d.bytes.len(), wp.0, op.0, ip.0, dp.0, custom);
    c.desc = desc.clone();
    c.nontrivial = d.bytes.len() >= 32 && nopt > 0;
    unsafe {
        // null handles and offsets
        let mut z = 0usize;
        let mut byte = [0u8; 4];
        if c.s.chance(1, 4) {
            c.class("null arguments");
            let n = std::ptr::null_mut::<c_void>();
            let p = byte.as_mut_ptr();
            let rs = [
                api::set(n, 1, 1),
                api::encode(n, p, 4, &mut z, p, 4, &mut z),
                api::flush(n, p, 4, &mut z),
                api::decode(n, p, 4, &mut z, p, 4, &mut z),
            ];
            if rs.iter().any(|r| *r != FAIL) || z != 0 {
                return Err(format!("null: calls on a null handle answered {:?}", rs));
            }
            api::free_c(n);
            api::free_d(n);
        }
        let h = if custom { api::new_c_alloc(&tr.calloc()) } else { api::new_c() };
        if h.is_null() {
            return Err("new: null compressor".into());
        }
        let m = set_options(c, h, nopt, &mut log)?;
        c.desc = format!("{}, options {}", desc, log);
        if c.s.chance(1, 8) {
            let p = byte.as_mut_ptr();
            let rs = [
                api::encode(h, p, 4, std::ptr::null_mut(), p, 4, &mut z),
                api::encode(h, p, 4, &mut z, p, 4, std::ptr::null_mut()),
                api::flush(h, p, 4, std::ptr::null_mut()),
            ];
            if rs.iter().any(|r| *r != FAIL) {
                return Err(format!("null: calls with a null offset pointer answered {:?}", rs));
            }
        }
        if c.s.chance(1, 8) {
            // no input at all, as a null pointer of length zero
            c.class("null input of length 0");
            let (mut io, mut oo) = (0usize, 0usize);
            let r = api::encode(h, std::ptr::null(), 0, &mut io, std::ptr::null_mut(), 0, &mut oo);
            if r == FAIL || io != 0 || oo != 0 {
                return Err(format!("null: encode of nothing answered {} offsets {} {}", r, io, oo));
            }
        }
        let writes = split(&d.bytes, &wp);
        let mut never = Stop(usize::MAX);
        let stream = c_encode(h, &writes, &op, &mut b, lead, &mut never, &mut c.checks, refuse)?.ok_or("stopped")?;
        if refuse {
            c.class("options set after the start");
        }
        api::free_c(h);
        if m.certain {
            c.class("stream compared with the Rust interface");
            let kind = match m.o.use_brotli {
                BrotliCompressionSetting::UseInternalCommandSelection => Kind::Internal,
                _ => Kind::Hybrid,
            };
            let want = r_encode(kind, m.o, &writes, &op, lead)?;
            c.checks += 1;
            if want != stream {
                return Err(format!("effect: the C API's stream differs from the Rust interface's with the same options: {}", drive::diff(&stream, &want)));
            }
        }
        let dec = drive::decode(&stream, &ip, &dp, false, false)?;
        expect_decoded(&dec, &d.bytes, stream.len(), "C-API stream")?;
        // decode through the C API, sometimes a damaged copy
        let mut st = stream.clone();
        let mut damage = "none".to_string();
        if c.s.chance(1, 3) && !st.is_empty() {
            let at = c.s.usize(st.len());
            if c.s.chance(1, 2) {
                st.truncate(at);
                damage = format!("cut at {}", at);
            } else {
                let x = 1 + c.s.usize(255) as u8;
                st[at] ^= x;
                damage = format!("byte {} ^ {}", at, x);
            }
            c.class("damaged stream");
        }
        let which = c.s.usize(4);
        let skip = which >= 2 && c.s.chance(1, 2);
        let mt = which == 3 || which == 1;
        let h = match which {
            0 => api::new_d_alloc(&tr.calloc(), 0, 0),
            1 => api::new_d(),
            2 => api::new_d_alloc(&tr.calloc(), skip as u8, 0),
            _ => api::new_d_alloc(&tr.calloc(), skip as u8, 1),
        };
        if h.is_null() {
            return Err("new: null decompressor".into());
        }
        c.desc = format!("{}, damage {}, decoder {} skip_crc {}", c.desc, damage, which, skip);
        let limit = d.bytes.len() + 100_000;
        let g = c_decode(h, &st, &ip, &dp, &mut b, lead, limit, Stop(usize::MAX), &mut c.checks)?.ok_or("stopped")?;
        api::free_d(h);
        if damage == "none" {
            expect_decoded(&g, &d.bytes, stream.len(), "C-API decoder")?;
        } else {
            let mut rd = drive::new_decoder(skip, false);
            let r = drive::decode_with(&mut rd, &st, &ip, &dp, lead, limit)?;
            if (r.verdict == Verdict::Success) != (g.verdict == Verdict::Success) || (r.verdict == Verdict::WantsInput) != (g.verdict == Verdict::WantsInput) && !mt {
                return Err(format!("verdict: C-API decoder says {:?}, Rust decoder {:?}", g.verdict, r.verdict));
            }
            if r.verdict == Verdict::Success && r.out != g.out {
                return Err(format!("content: C-API and Rust decoders differ: {}", drive::diff(&g.out, &r.out)));
            }
            c.checks += 1;
        }
        let _ = damage;
    }
    tr.finish()?;
    Ok(())
}

// ------------------------------------------------------------------------------------------ P18

const P18_RULE: &str = "case = a C-API handle (compressor of either kind, serial or multithreaded decompressor) built on a tracking allocator that hands out non-zeroed memory with guard bytes or against inaccessible pages, used on generated data (for decompressors sometimes damaged or truncated) and freed at a drawn point: before use, after the k-th call, after success, after an error; also helper malloc/free; oracle: every block came back exactly once, no block was written outside its bounds or after being freed, no large buffer was taken from elsewhere; non-trivial: at least 10 blocks were allocated";

fn p18(c: &mut Ctx) -> Result<(), String> {
    let mode = match c.s.weighted(&[4, 3, 1]) {
        0 => Mode::Guard,
        1 => Mode::PagesEnd,
        _ => Mode::PagesStart,
    };
    let lim = match c.s.weighted(&[6, 3, 1]) {
        0 => 2000,
        1 => 20_000,
        _ => 150_000,
    };
    let d = gen::data(&mut c.s, lim);
    let wp = pat(&mut c.s, d.bytes.len(), 1000);
    let op = pat(&mut c.s, d.bytes.len(), 1000);
    let ip = pat(&mut c.s, d.bytes.len(), 1000);
    let mut b = Bufs::new(d.bytes.len().max(70000), op.0.iter().max().copied().unwrap_or(1), false);
    let tr = Tracker::new(mode, c.s.u64());
    let stop_at = match c.s.weighted(&[3, 1, 4]) {
        0 => usize::MAX,
        1 => 0,
        _ => c.s.logrange(0, 60),
    };
    let mut stop = Stop(stop_at);
    let comp = c.s.chance(1, 2);
    let mut log = String::new();
    let out;
    let mut threads = false;
    crate::heap::reset();
    unsafe {
        if comp {
            let h = api::new_c_alloc(&tr.calloc());
            let m = set_options_quiet(c, h, &mut log);
            c.desc = format!("compressor, {:?}, {} bytes, writes {:?}, out {:?}, freed after {} calls, options {}", mode, d.bytes.len(), wp.0, op.0, stop_at as i64, log);
            c.class(if m { "hybrid compressor" } else { "internal compressor" });
            let writes = split(&d.bytes, &wp);
            let r = c_encode(h, &writes, &op, &mut b, 0, &mut stop, &mut c.checks, false);
            crate::heap::on(true);
            api::free_c(h);
            crate::heap::on(false);
            out = match r? {
                None => "stopped",
                Some(s) => {
                    let dec = drive::decode(&s, &Pat::big(), &Pat::big(), false, false)?;
                    expect_decoded(&dec, &d.bytes, s.len(), "custom allocator")?;
                    "success"
                }
            };
        } else {
            let (mut st, want, from) = if c.s.chance(1, 2) {
                super::core::made_stream(c, lim)?
            } else {
                let kind = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
                let whi = if c.s.chance(1, 8) { 24 } else { 18 };
                let o = gen::options(&mut c.s, 10, whi, 6, kind == Kind::Hybrid);
                (drive::compress(kind, o.opts, &d.bytes)?, d.bytes.clone(), o.desc)
            };
            let mut damage = String::from("none");
            match c.s.weighted(&[4, 2, 2]) {
                0 => {}
                1 => {
                    let at = c.s.usize(st.len());
                    st.truncate(at);
                    damage = format!("cut at {}", at);
                }
                _ => {
                    for _ in 0..1 + c.s.usize(3) {
                        let at = c.s.usize(st.len());
                        st[at] ^= 1 + c.s.usize(255) as u8;
                        damage = format!("bytes changed, last {}", at);
                    }
                }
            }
            let mt = c.s.chance(1, 3);
            threads = mt;
            let skip = c.s.chance(1, 3);
            c.desc = format!("decompressor, {:?}, {} bytes, stream {} {}, in {:?}, out {:?}, threads {}, skip_crc {}, freed after {} calls, {}", mode, want.len(), st.len(), damage, ip.0, op.0, mt, skip, stop_at as i64, from);
            c.class(if mt { "multithreaded decompressor" } else { "serial decompressor" });
            crate::heap::on(true);
            let h = api::new_d_alloc(&tr.calloc(), skip as u8, mt as u8);
            crate::heap::on(false);
            let r = c_decode(h, &st, &ip, &op, &mut b, 0, want.len() + 100_000, stop, &mut c.checks);
            api::free_d(h);
            out = match r? {
                None => "stopped",
                Some(g) => match g.verdict {
                    Verdict::Success => {
                        if damage == "none" {
                            expect_decoded(&g, &want, st.len(), "custom allocator")?;
                        }
                        "success"
                    }
                    Verdict::WantsInput => "input used up",
                    _ => "error",
                },
            };
            if damage == "none" && out != "success" && out != "stopped" {
                return Err(format!("custom allocator: valid stream ended with {}", out));
            }
        }
    }
    let big = crate::heap::max();
    c.class(format!("freed after: {}{}", out, if stop_at == 0 { " (unused)" } else { "" }));
    let (n, _bytes) = tr.finish()?;
    c.nontrivial = n >= 10;
    // starting a thread moves the decoder's state, not its buffers, through the heap
    if big > if threads { 65536 } else { HEAP_LIMIT } {
        return Err(format!("elsewhere: a buffer of {} bytes was taken from the Rust heap", big));
    }
    Ok(())
}
const HEAP_LIMIT: usize = 200;

fn set_options_quiet(c: &mut Ctx, h: *mut c_void, log: &mut String) -> bool {
    let mut hybrid = true;
    for _ in 0..c.s.usize(8) {
        let sel = 1 + c.s.usize(20) as u8;
        let v = match sel {
            1 => c.s.range(0, 11) as u32,
            2 => c.s.range(10, 18) as u32,
            3 => c.s.range(16, 18) as u32,
            5 => c.s.range(0, 1) as u32,
            8 | 12 | 13 | 14 => c.s.range(0, 14) as u32,
            4 => c.s.range(0, 7) as u32,
            9 => c.s.range(0, 8) as u32,
            10 | 16 => c.s.range(0, 2) as u32,
            15 => *c.s.pick(&[0u32, 1, 40, 340, 1000]),
            19 => c.s.range(0, 3) as u32,
            _ => c.s.range(0, 1) as u32,
        };
        let r = unsafe { api::set(h, sel, v) };
        if r == OK {
            match sel {
                5 => hybrid = v != 0,
                6 => hybrid = true,
                _ => {}
            }
        }
        *log += &format!("{}={} ", sel, v);
    }
    let w = c.s.range(10, 18) as u32;
    unsafe { api::set(h, 2, w) };
    *log += &format!("2={} ", w);
    hybrid
}
