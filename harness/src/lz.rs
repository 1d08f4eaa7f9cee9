//! Commands: generator of legal command sequences and a direct interpreter over the unbounded history.
use crate::gen;
use crate::src::{Rng, Src};
use alloc_stdlib::HeapAlloc;
use brotli::enc::interface as bi;
use divans::{BlockSwitch, Command, CopyCommand, DictCommand, FeatureFlagSliceType, LiteralBlockSwitch, LiteralCommand, PredictionModeContextMap, SliceWrapper};

#[derive(Default, Clone, Debug)]
pub struct Sl(pub Vec<u8>);
impl SliceWrapper<u8> for Sl {
    fn slice(&self) -> &[u8] {
        &self.0
    }
}
pub type Heap8 = HeapAlloc<u8>;

#[derive(Clone, Debug, PartialEq)]
pub struct Pm {
    pub mode: u8,
    pub lit_map: Vec<u8>,
    /// predmode / mixing / speeds / distance map, in the layout of the brotli interface; may be empty
    pub rest: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Lit(Vec<u8>, bool),
    Copy { d: u32, n: u32 },
    Dict { size: u8, id: u32, tr: u8 },
    BL(u8, u8),
    BC(u8),
    BD(u8),
    Pm(Pm),
}

pub fn dict_word(size: u8, id: u32, tr: u8) -> Vec<u8> {
    let off = brotli::dictionary::kBrotliDictionaryOffsetsByLength[size as usize] as usize + id as usize * size as usize;
    let w = &brotli::dictionary::kBrotliDictionary[off..off + size as usize];
    let mut t = [0u8; 64];
    let n = brotli::TransformDictionaryWord(&mut t, w, size as i32, tr as i32);
    t[..n as usize].to_vec()
}

impl C {
    pub fn to_cmd(&self) -> Command<Sl> {
        match self {
            C::Lit(d, he) => Command::Literal(LiteralCommand { data: Sl(d.clone()), prob: FeatureFlagSliceType::default(), high_entropy: *he }),
            C::Copy { d, n } => Command::Copy(CopyCommand { distance: *d, num_bytes: *n }),
            C::Dict { size, id, tr } => {
                Command::Dict(DictCommand { word_size: *size, transform: *tr, final_size: dict_word(*size, *id, *tr).len() as u8, empty: 0, word_id: *id })
            }
            C::BL(t, s) => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(*t, *s)),
            C::BC(t) => Command::BlockSwitchCommand(BlockSwitch::new(*t)),
            C::BD(t) => Command::BlockSwitchDistance(BlockSwitch::new(*t)),
            C::Pm(p) => Command::PredictionMode(PredictionModeContextMap {
                literal_context_map: Sl(p.lit_map.clone()),
                predmode_speed_and_distance_context_map: Sl(p.rest.clone()),
            }),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            C::Lit(d, he) => format!("insert {}{}", d.len(), if *he { " high-entropy" } else { "" }),
            C::Copy { d, n } => format!("copy {} from {}", n, d),
            C::Dict { size, id, tr } => format!("dict {},{} func {}", size, id, tr),
            C::BL(t, s) => format!("ltype {} {}", t, s),
            C::BC(t) => format!("ctype {}", t),
            C::BD(t) => format!("dtype {}", t),
            C::Pm(p) => format!("prediction mode {} maps {}/{}", p.mode, p.lit_map.len(), p.rest.len()),
        }
    }
}

pub fn brief(cs: &[C]) -> String {
    let mut o = String::new();
    for (i, c) in cs.iter().enumerate() {
        if i == 40 {
            o.push_str(&format!("; ... ({} commands)", cs.len()));
            break;
        }
        if i > 0 {
            o.push_str("; ");
        }
        o.push_str(&c.brief());
    }
    o
}

/// Reference semantics: one byte at a time over the whole history.
pub fn interpret(cs: &[C]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for c in cs {
        match c {
            C::Lit(d, _) => out.extend_from_slice(d),
            C::Copy { d, n } => {
                for _ in 0..*n {
                    let b = out[out.len() - *d as usize];
                    out.push(b);
                }
            }
            C::Dict { size, id, tr } => out.extend_from_slice(&dict_word(*size, *id, *tr)),
            _ => {}
        }
    }
    out
}

pub struct CmdOpts {
    pub window: u32,
    pub max_out: usize,
    pub max_cmds: usize,
    /// block switches and prediction modes too
    pub meta: bool,
    pub max_dist_slack: u32,
    /// lengths around every power of two up to max_out
    pub huge: bool,
}

fn speed_bytes(s: &mut Src, n: usize) -> Vec<u8> {
    // mostly in the range encoders use: f8 values of increments up to 2048 and limits up to 16384
    let incs: [u16; 9] = [0, 1, 2, 16, 32, 128, 512, 1024, 2048];
    let lims: [u16; 7] = [16, 32, 256, 1024, 4096, 16384, 8192];
    if s.chance(1, 4) {
        // any byte: values beyond what the coder can use are cut down to it
        return (0..2 * n).map(|_| s.below(256) as u8).collect();
    }
    let mut inc = vec![];
    let mut lim = vec![];
    for _ in 0..n {
        inc.push(bi::speed_to_u8(*s.pick(&incs)));
        lim.push(bi::speed_to_u8(*s.pick(&lims)));
    }
    inc.extend(lim);
    inc
}

pub fn pred_mode(s: &mut Src) -> Pm {
    let mode = s.below(4) as u8;
    let nlit = match s.weighted(&[3, 3, 2, 2]) {
        0 => 64,
        1 => 0,
        2 => 64 * s.range(1, 8),
        _ => s.logrange(0, bi::MAX_LITERAL_CONTEXT_MAP_SIZE),
    };
    let spread = s.logrange(1, 256) as u64;
    let mut r = Rng::new(s.u64());
    let style = s.usize(4);
    let mut walk = Walk::new(&mut r);
    let lit_map: Vec<u8> = (0..nlit)
        .map(|i| match style {
            0 => (i as u64 % spread) as u8,
            1 => r.below(spread) as u8,
            2 => ((i as u64 / 64) % spread) as u8,
            _ => walk.next(&mut r),
        })
        .collect();
    let ndist = match s.weighted(&[3, 3, 2]) {
        0 => 4,
        1 => 0,
        _ => s.logrange(0, 1024),
    };
    let mut rest = vec![0u8; bi::DISTANCE_CONTEXT_MAP_OFFSET + ndist];
    rest[bi::PREDMODE_OFFSET] = mode;
    rest[bi::MIXING_MATH_OFFSET] = s.below(4) as u8;
    rest[bi::ADV_CONTEXT_MAP_OFFSET] = s.below(2) as u8;
    let mixstyle = s.usize(4);
    let mixconst = s.below(16) as u8;
    for i in 0..bi::NUM_MIXING_VALUES {
        rest[bi::MIXING_OFFSET + i] = match mixstyle {
            0 => mixconst,
            1 => r.below(16) as u8,
            2 => ((i / 256) % 16) as u8,
            _ => 4,
        };
    }
    if s.chance(2, 3) {
        for k in 0..3 {
            let b = speed_bytes(s, 2);
            rest[bi::SPEED_OFFSET + 4 * k..bi::SPEED_OFFSET + 4 * k + 4].copy_from_slice(&b);
        }
    }
    let dspread = s.logrange(1, 256) as u64;
    let dwalk = s.chance(1, 3);
    let mut walk = Walk::new(&mut r);
    for i in 0..ndist {
        rest[bi::DISTANCE_CONTEXT_MAP_OFFSET + i] = if dwalk { walk.next(&mut r) } else { r.below(dspread) as u8 };
    }
    Pm { mode, lit_map, rest }
}

/// Values that keep to the ones used last, the largest so far and one more, around both ends of the range.
struct Walk {
    seen: Vec<u8>,
    max: u8,
}
impl Walk {
    fn new(r: &mut Rng) -> Walk {
        Walk { seen: vec![0], max: if r.below(2) == 0 { 12 } else { 250 } }
    }
    fn next(&mut self, r: &mut Rng) -> u8 {
        let v = match r.below(8) {
            0..=3 => self.seen[self.seen.len() - 1 - r.below(self.seen.len().min(15) as u64) as usize],
            4 | 5 => self.max.wrapping_add(1),
            6 => *[0, 1, 12, 13, 14, 15, 254, 255].get(r.below(8) as usize).unwrap(),
            _ => r.below(256) as u8,
        };
        self.max = self.max.max(v);
        self.seen.push(v);
        v
    }
}

/// Block types of one kind: what was seen decides how the next is coded.
struct Types {
    last: [u8; 2],
    max: u8,
}
impl Types {
    fn next(&mut self, s: &mut Src) -> u8 {
        let t = match s.weighted(&[4, 2, 2, 1, 1]) {
            0 => bt(s),
            1 => self.max.wrapping_add(1),
            2 => self.last[1],
            3 => *s.pick(&[0, 1, 12, 13, 14, 254, 255]),
            _ => 255,
        };
        self.last = [t, self.last[0]];
        self.max = self.max.max(t);
        t
    }
}

/// A legal command sequence and the bytes it stands for.
pub fn commands(s: &mut Src, o: &CmdOpts) -> (Vec<C>, Vec<u8>) {
    let mut cs = vec![];
    let mut out: Vec<u8> = vec![];
    let ring = 1u32 << o.window;
    let maxd = ring - o.max_dist_slack;
    let n = s.logrange(0, o.max_cmds);
    let mut recent: Vec<u32> = vec![4, 11, 15, 16];
    let use_block = o.meta && s.chance(1, 2);
    let switchy = use_block && s.chance(1, 3);
    let mut types = [Types { last: [0, 1], max: 0 }, Types { last: [0, 1], max: 0 }, Types { last: [0, 1], max: 0 }];
    let big = s.chance(1, 4);
    for _ in 0..n {
        if out.len() >= o.max_out {
            break;
        }
        let room = o.max_out - out.len();
        let k = s.weighted(&[6, 8, 3, if switchy { 14 } else if use_block { 2 } else { 0 }, if o.meta { 1 } else { 0 }]);
        let c = match k {
            0 => {
                let kind = s.usize(gen::SEG_NAMES.len());
                let len = match s.weighted(&[5, 2, if big { 2 } else { 0 }]) {
                    0 => s.logrange(1, 40),
                    1 => s.logrange(1, 2000),
                    _ => s.logrange(1, room.max(1)),
                }
                .min(room.max(1));
                let mut d = vec![];
                gen::segment(s, kind, len, &mut d);
                if d.is_empty() {
                    d.push(0);
                }
                C::Lit(d, s.chance(1, 4))
            }
            1 => {
                if out.is_empty() {
                    continue;
                }
                let lim = (out.len() as u64).min(maxd as u64) as u32;
                let d = match s.weighted(&[4, 3, 3, 2, 2]) {
                    0 => 1 + s.logrange(0, lim as usize - 1) as u32,
                    1 => *s.pick(&recent),
                    2 => {
                        // near a recently used distance: the mnemonic codes
                        let base = *s.pick(&recent) as i64;
                        (base + s.below(13) as i64 - 6).max(1) as u32
                    }
                    3 => lim - s.logrange(0, lim as usize - 1) as u32,
                    _ => 1 + s.below(lim.min(32) as u64) as u32,
                }
                .min(lim);
                let n = match s.weighted(&[5, 3, 2, if big { 2 } else { 0 }, if o.huge { 5 } else { 0 }]) {
                    0 => s.logrange(1, 40),
                    1 => s.logrange(0, 3000),
                    2 => (d as usize + s.below(9) as usize).saturating_sub(4),
                    3 => s.logrange(0, room),
                    _ => {
                        let spread = if s.chance(1, 2) { 12 } else { 1 << 23 };
                        (1usize << s.range(12, 23)) - 6 + s.logrange(0, spread)
                    }
                }
                .min(room) as u32;
                recent.insert(0, d);
                recent.truncate(4);
                C::Copy { d, n }
            }
            2 => {
                let size = s.range(4, 24) as u8;
                let bits = brotli::dictionary::kBrotliDictionarySizeBitsByLength[size as usize];
                let id = match s.weighted(&[4, 1, 1]) {
                    0 => s.below(1 << bits) as u32,
                    1 => 0,
                    _ => (1 << bits) - 1,
                };
                let tr = if s.chance(1, 2) { s.below(121) as u8 } else { 0 };
                C::Dict { size, id, tr }
            }
            3 => match s.usize(3) {
                0 => C::BL(types[0].next(s), s.below(9) as u8),
                1 => C::BC(types[1].next(s)),
                _ => C::BD(types[2].next(s)),
            },
            _ => C::Pm(pred_mode(s)),
        };
        match &c {
            C::Lit(d, _) => out.extend_from_slice(d),
            C::Copy { d, n } => {
                for _ in 0..*n {
                    let b = out[out.len() - *d as usize];
                    out.push(b);
                }
            }
            C::Dict { size, id, tr } => out.extend_from_slice(&dict_word(*size, *id, *tr)),
            _ => {}
        }
        cs.push(c);
    }
    (cs, out)
}

fn bt(s: &mut Src) -> u8 {
    match s.weighted(&[4, 3, 2]) {
        0 => s.below(4) as u8,
        1 => s.below(20) as u8,
        _ => s.below(256) as u8,
    }
}
