//! P22: the crate in /repo against a frozen copy of it: each reads what the other writes.
use dvh::drive::{decode, diff, encode_cmds, expect_decoded, Encoder};
use dvh::gen::{self, pat, Pat};
use dvh::lz::{self, Sl, C};
use dvh::runner::{Ctx, Prop};
#[global_allocator]
static HEAP: dvh::heap::Watch = dvh::heap::Watch;

include!("../../variants/src/variant.rs");
variant!(now, base);
variant!(frozen, divans_frozen);

/// The same commands, in the frozen crate's types, through its command encoder.
mod frozen_commands {
    use super::*;
    use alloc_stdlib::HeapAlloc;
    use divans_frozen as d;
    use d::{DecoderSpecialization as _, DivansCompressorFactory};

    fn to_cmd(c: &C) -> d::Command<Sl> {
        match c {
            C::Lit(b, he) => d::Command::Literal(d::LiteralCommand { data: Sl(b.clone()), prob: d::FeatureFlagSliceType::default(), high_entropy: *he }),
            C::Copy { d: dist, n } => d::Command::Copy(d::CopyCommand { distance: *dist, num_bytes: *n }),
            C::Dict { size, id, tr } => d::Command::Dict(d::DictCommand {
                word_size: *size,
                transform: *tr,
                final_size: lz::dict_word(*size, *id, *tr).len() as u8,
                empty: 0,
                word_id: *id,
            }),
            C::BL(t, s) => d::Command::BlockSwitchLiteral(d::LiteralBlockSwitch::new(*t, *s)),
            C::BC(t) => d::Command::BlockSwitchCommand(d::BlockSwitch::new(*t)),
            C::BD(t) => d::Command::BlockSwitchDistance(d::BlockSwitch::new(*t)),
            C::Pm(p) => d::Command::PredictionMode(d::PredictionModeContextMap {
                literal_context_map: Sl(p.lit_map.clone()),
                predmode_speed_and_distance_context_map: Sl(p.rest.clone()),
            }),
        }
    }
    pub fn encode(cs: &[C], o: d::DivansCompressorOptions) -> Result<Vec<u8>, String> {
        let mut e = <d::DivansCompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<d::DefaultCDF16>> as DivansCompressorFactory<
            HeapAlloc<u8>,
            HeapAlloc<u32>,
            HeapAlloc<d::DefaultCDF16>,
        >>::new(HeapAlloc::new(0), HeapAlloc::new(0), HeapAlloc::new(d::DefaultCDF16::default()), o, ());
        use d::interface::Compressor;
        let cmds: Vec<_> = cs.iter().map(to_cmd).collect();
        let mut out = vec![];
        let mut buf = vec![0u8; 65536];
        let mut i = 0;
        while i < cmds.len() {
            let mut n = 0;
            let r = e.encode_commands(&cmds, &mut i, &mut buf, &mut n);
            out.extend_from_slice(&buf[..n]);
            match r {
                d::DivansOutputResult::Success => {}
                d::DivansOutputResult::NeedsMoreOutput => {}
                d::DivansOutputResult::Failure(m) => return Err(format!("{:?}", m)),
            }
        }
        loop {
            let mut n = 0;
            let r = e.flush(&mut buf, &mut n);
            out.extend_from_slice(&buf[..n]);
            match r {
                d::DivansOutputResult::Success => return Ok(out),
                d::DivansOutputResult::NeedsMoreOutput => {}
                d::DivansOutputResult::Failure(m) => return Err(format!("{:?}", m)),
            }
        }
    }
}

const RULE: &str = "case = generated input and options for the hybrid or built-in encoder (two in three), or a generated legal command sequence for the command encoder; the stream of a frozen copy of the crate is decoded by the current tree, and the current tree's stream by the frozen copy; both must give back the input; the streams need not be equal; non-trivial: at least 64 bytes of content, or at least 3 commands";

fn case(c: &mut Ctx) -> Result<(), String> {
    if c.s.chance(1, 3) {
        return commands(c);
    }
    let lim = if c.s.chance(1, if c.thorough { 10 } else { 30 }) { 300_000 } else { 30_000 };
    let d = gen::data(&mut c.s, lim).bytes;
    let kind = if c.s.chance(1, 3) { Kind::Internal } else { Kind::Hybrid };
    let o = gen::options(&mut c.s, 10, 22, 9, true);
    let multi = c.s.chance(1, 3);
    c.desc = format!("{:?} encoder, {} bytes, {}, multithreaded decode {}", kind, d.len(), o.desc, multi);
    c.nontrivial = d.len() >= 64;
    c.class(format!("{:?}", kind));
    let old = frozen::enc(kind, &o.opts, &d, 65536);
    let new = now::enc(kind, &o.opts, &d, 65536);
    // which inputs an encoder refuses is P01's and P02's business
    if let Ok(st) = &old {
        let x = now::dec(st, 65536, multi).map_err(|e| format!("old-stream: a stream of the frozen crate is not read: {}", e))?;
        if x != d {
            return Err(format!("old-stream: a stream of the frozen crate is read as other bytes: {}", diff(&x, &d)));
        }
        c.checks += 1;
    }
    if let Ok(st) = &new {
        let x = frozen::dec(st, 65536, multi).map_err(|e| format!("new-stream: the stream is not read by the frozen crate: {}", e))?;
        if x != d {
            return Err(format!("new-stream: the stream is read as other bytes by the frozen crate: {}", diff(&x, &d)));
        }
        c.checks += 1;
    }
    Ok(())
}

fn commands(c: &mut Ctx) -> Result<(), String> {
    let whi = if c.s.chance(1, 4) { 24 } else { 13 };
    let o = gen::options(&mut c.s, 10, whi, 9, false);
    let w = o.opts.window_size.unwrap_or(22).max(10).min(24) as u32;
    let co = lz::CmdOpts { window: w, max_out: 20_000, max_cmds: 60, meta: true, max_dist_slack: 16, huge: false };
    let (cs, want) = lz::commands(&mut c.s, &co);
    c.desc = format!("[{}], {}", lz::brief(&cs), o.desc);
    c.nontrivial = cs.len() >= 3;
    c.class("commands");
    let ip = pat(&mut c.s, want.len(), 3000);
    if let Ok(old) = frozen_commands::encode(&cs, frozen::opts(&o.opts)) {
        let dec = decode(&old, &ip, &Pat::big(), false, false)?;
        expect_decoded(&dec, &want, old.len(), "old-stream")?;
        c.checks += 1;
    }
    let cmds: Vec<_> = cs.iter().map(|x| x.to_cmd()).collect();
    let mut e = Encoder::new(Kind::Internal, o.opts);
    if let Ok(new) = encode_cmds(&mut e, &cmds, &Pat::big(), &Pat::big(), 0) {
        let x = frozen::dec(&new.bytes, 65536, false).map_err(|e| format!("new-stream: the command stream is not read by the frozen crate: {}", e))?;
        if x != want {
            return Err(format!("new-stream: the command stream is read as other bytes by the frozen crate: {}", diff(&x, &want)));
        }
        c.checks += 1;
    }
    Ok(())
}

fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let p = [Prop { id: "P22", quick: 5000, thorough: 300000, rule: RULE, case, cpu_limit: 120, spawns: false, mem_mb: 6000, exhaustive: false }];
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
