//! P07 with schedule exploration: half of the cases run the real threads (dvh's case), half run the same source with
//! std::sync and std::thread replaced by shuttle's, which picks every context switch from the case's seed.
use alloc_stdlib::HeapAlloc;
use divans_shuttle as ds;
use ds::{Decompressor, DivansDecompressorFactory, DivansResult, Nop};
use dvh::drive::{decode_with, diff, new_decoder, Verdict};
use dvh::gen::{pat, Pat};
use dvh::props::bad::{p07, p07_stream, P07_RULE};
use dvh::runner::{Ctx, Prop};
use dvh::src::{hash_bytes, mix};
use std::sync::{Arc, Mutex};

type F = ds::DivansDecompressorFactoryStruct<HeapAlloc<u8>, HeapAlloc<ds::DefaultCDF16>, HeapAlloc<ds::StaticCommand>>;

struct Plan {
    st: Vec<u8>,
    skip: bool,
    ip: Pat,
    op: Pat,
    /// calls and bytes after which the decoder is released
    stop: Option<(usize, usize)>,
    fin: usize,
    want: Vec<u8>,
    success: bool,
    limited: bool,
}

const LIMIT: usize = 60_000;

fn body(p: &Plan) -> Result<(), String> {
    let mut d = F::new(
        HeapAlloc::<u8>::new(0),
        HeapAlloc::<ds::DefaultCDF16>::new(ds::DefaultCDF16::default()),
        HeapAlloc::<ds::StaticCommand>::new(ds::StaticCommand::nop()),
        p.skip,
        true,
    );
    let end = p.stop.map(|s| s.1).unwrap_or(p.st.len());
    let mut pos = 0;
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; LIMIT];
    let mut idle = 0;
    let mut i = 0;
    let mut done = None;
    let mut limited = false;
    while done.is_none() {
        if let Some((calls, _)) = p.stop {
            if i >= calls {
                break;
            }
        }
        let n = p.ip.at(i).min(end - pos);
        let m = p.op.at(i).min(buf.len());
        i += 1;
        let (mut io, mut oo) = (0, 0);
        let v = d.decode(&p.st[pos..pos + n], &mut io, &mut buf[..m], &mut oo);
        if io > n || oo > m {
            return Err(format!("offset: decoder moved offsets to {} of {} and {} of {}", io, n, oo, m));
        }
        pos += io;
        out.extend_from_slice(&buf[..oo]);
        match v {
            DivansResult::Success => done = Some(true),
            DivansResult::Failure(_) => done = Some(false),
            DivansResult::NeedsMoreInput if pos == end && io == 0 && oo == 0 => {
                if p.stop.is_some() {
                    break;
                }
                done = Some(false)
            }
            _ => {}
        }
        idle = if io == 0 && oo == 0 && n > 0 && m > 0 { idle + 1 } else { 0 };
        if idle > 100 {
            return Err("stall: the multithreaded decoder makes no progress with input and output space available".into());
        }
        if out.len() > LIMIT {
            limited = true;
            break;
        }
    }
    if done == Some(true) && p.stop.is_none() {
        if !p.success && !p.limited {
            return Err("parallel-verdict: the multithreaded decoder succeeded, the serial one did not".into());
        }
    }
    if done == Some(false) && p.success && p.stop.is_none() {
        return Err("parallel-verdict: the serial decoder succeeded, the multithreaded one did not".into());
    }
    if done == Some(true) && p.success && out != p.want && !limited {
        return Err(format!("parallel-bytes: {}", diff(&out, &p.want)));
    }
    let n = out.len().min(p.want.len());
    if out[..n] != p.want[..n] {
        return Err(format!("parallel-bytes: output differs from the serial decoder's: {}", diff(&out[..n], &p.want[..n])));
    }
    match p.fin {
        0 => drop(d),
        1 => {
            d.free_ref();
            drop(d)
        }
        _ => drop(d.free()),
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Result<(), String> {
    if c.s.chance(1, 2) {
        c.class("real threads");
        return p07(c);
    }
    c.class("modelled schedules");
    let (st, how) = p07_stream(c, &[6, 2, 0])?;
    let skip = c.s.chance(1, 3);
    let mut ser = new_decoder(skip, false);
    let a = decode_with(&mut ser, &st, &Pat::big(), &Pat::big(), 0, LIMIT)?;
    ser.free_ref();
    drop(ser);
    c.key = Some(mix(hash_bytes(&st), skip as u64));
    c.nontrivial = st.len() > 16 && st[..4] == [0xff, 0xe5, 0x8c, 0x9f] && (10..25).contains(&st[5]);
    let ip = pat(&mut c.s, st.len(), 60);
    let op = pat(&mut c.s, LIMIT, 120);
    let stop = if c.s.chance(1, 2) { Some((c.s.logrange(0, 30), c.s.logrange(0, st.len()))) } else { None };
    let fin = c.s.usize(3);
    let pct = c.s.usize(4);
    let seed = c.s.u64();
    let rounds = if c.thorough { 60 } else { 12 };
    c.desc = format!(
        "{} (modelled schedules): {} bytes, skip_crc {}, serial {:?} with {} bytes; in {:?} out {:?} stop {:?} end {} scheduler {} x {}",
        how,
        st.len(),
        skip,
        a.verdict,
        a.out.len(),
        ip.0,
        op.0,
        stop,
        ["drop", "free_ref", "free"][fin],
        if pct == 0 { "random".to_string() } else { format!("PCT depth {}", pct) },
        rounds
    );
    let plan = Arc::new(Plan { st, skip, ip, op, stop, fin, success: a.verdict == Verdict::Success, limited: a.limited, want: a.out });
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let b2 = bad.clone();
    let mut cfg = shuttle::Config::new();
    cfg.stack_size = 1 << 21;
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.max_steps = shuttle::MaxSteps::FailAfter(2_000_000);
    let f = move || {
        // a stream that ends in its header starts no worker; the PCT scheduler insists on a second thread
        let m = shuttle::sync::Arc::new(shuttle::sync::Mutex::new(0));
        let m2 = m.clone();
        let other = shuttle::thread::spawn(move || *m2.lock().unwrap() += 1);
        for _ in 0..3 {
            *m.lock().unwrap() += 1;
        }
        if let Err(e) = body(&plan) {
            b2.lock().unwrap().get_or_insert(e);
        }
        let _ = other.join();
    };
    c.checks += rounds as u64;
    if pct == 0 {
        shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed, rounds), cfg).run(f);
    } else {
        shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed, pct, rounds), cfg).run(f);
    }
    let e = bad.lock().unwrap().take();
    match e {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut p: Vec<Prop> = dvh::props::all().into_iter().filter(|p| p.id == "P07").collect();
    for p in p.iter_mut() {
        p.case = case;
        p.rule = P07_RULE;
        // a blocked task is a panic in the model, and so is a schedule that does not end
    }
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
