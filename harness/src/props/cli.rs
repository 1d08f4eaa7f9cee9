//! The command-line tool (P14), driven as a process on scratch files.
use crate::drive::{self, Kind};
use crate::gen::{self, Pat};
use crate::lz::{self, C};
use crate::runner::{Ctx, Prop};
use crate::src::{hash_bytes, Rng, Src};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P14", quick: 3000, thorough: 40_000, rule: P14_RULE, case: p14, cpu_limit: 300, spawns: true, mem_mb: 12_000, exhaustive: false }]
}

pub const P14_RULE: &str = "case = one scenario of the divans executable on files in a scratch directory: (a) a generated file x generated flags x file/pipe/slow-pipe input x file/pipe output, compressed, then decompressed by the tool (explicit or auto-detected mode, serial or parallel, any buffer size) and by the library; (b) a library-made stream decompressed by the tool; (c) a generated command sequence printed as IR text, replayed with --recode and compressed with -i, or a file of testdata/*.ir; (d) a damaged or truncated stream; (e) inputs around the mode detection (prefixes of the magic number, tiny inputs, streams of streams with -c, names after --); (f) an output that cannot be written; non-trivial: the content is not empty and the scenario ran to its final comparison";

const MAGIC: [u8; 4] = [0xff, 0xe5, 0x8c, 0x9f];

struct Scratch(PathBuf);
impl Scratch {
    fn new(c: &Ctx) -> Result<Scratch, String> {
        let p = std::env::temp_dir().join(format!("dvh-p14-{}-{}-{}", std::process::id(), c.seed, c.index));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).map_err(|e| format!("machinery: scratch {}", e))?;
        Ok(Scratch(p))
    }
    fn put(&self, name: &str, d: &[u8]) -> Result<PathBuf, String> {
        let p = self.0.join(name);
        fs::write(&p, d).map_err(|e| format!("machinery: write {}", e))?;
        Ok(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn tool() -> PathBuf {
    match std::env::var_os("DIVANS_BIN") {
        Some(p) => PathBuf::from(p),
        None => {
            let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
            Path::new(&root).join("target/cli/release/divans")
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    File,
    Redirect,
    Pipe,
    Slow,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    File,
    Pipe,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn why(&self) -> String {
        let e: String = self.err.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" / ");
        format!("exit {:?} signal {:?} stderr {}", self.code, self.signal, e.chars().take(300).collect::<String>())
    }
}

/// Run the tool; `args` are the flags, the file names follow according to the plumbing.
fn run(d: &Scratch, args: &[String], data: &[u8], i: In, o: Out) -> Result<Ran, String> {
    run_named(d, args, data, i, o, "in.bin", false)
}

fn run_named(d: &Scratch, args: &[String], data: &[u8], i: In, o: Out, name: &str, dashes: bool) -> Result<Ran, String> {
    let inp = d.put(name, data)?;
    let outp = d.0.join("out.bin");
    let _ = fs::remove_file(&outp);
    let mut cmd = Command::new(tool());
    cmd.current_dir(&d.0).env("RUST_BACKTRACE", "0").args(args);
    // an output file name can only follow an input file name
    let i = if o == Out::File { In::File } else { i };
    if i == In::File {
        if dashes {
            cmd.arg("--").arg(name);
        } else {
            cmd.arg(name);
        }
        if o == Out::File {
            cmd.arg("out.bin");
        }
        cmd.stdin(Stdio::null());
    } else if i == In::Redirect {
        cmd.stdin(fs::File::open(&inp).map_err(|e| format!("machinery: open {}", e))?);
    } else {
        cmd.stdin(Stdio::piped());
    }
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = cmd.spawn().map_err(|e| format!("machinery: cannot start {}: {}", tool().display(), e))?;
    if let Some(mut si) = ch.stdin.take() {
        let data = data.to_vec();
        let slow = i == In::Slow;
        std::thread::spawn(move || {
            let mut at = 0;
            if slow {
                let mut r = Rng::new(hash_bytes(&data));
                while at < data.len() && at < 60 {
                    let n = (1 + r.below(9) as usize).min(data.len() - at);
                    if si.write_all(&data[at..at + n]).is_err() {
                        return;
                    }
                    at += n;
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            let _ = si.write_all(&data[at..]);
        });
    }
    let mut so = ch.stdout.take().ok_or("machinery: no stdout")?;
    let mut se = ch.stderr.take().ok_or("machinery: no stderr")?;
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let st = wait(&mut ch, args)?;
    let pipe = t1.join().map_err(|_| "machinery: reader")?;
    let err = String::from_utf8_lossy(&t2.join().map_err(|_| "machinery: reader")?).into_owned();
    let out = if o == Out::File { fs::read(&outp).unwrap_or_default() } else { pipe };
    Ok(Ran { code: st.code(), signal: st.signal(), out, err })
}

fn wait(ch: &mut std::process::Child, args: &[String]) -> Result<std::process::ExitStatus, String> {
    let start = Instant::now();
    let mut nap = 300;
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| format!("machinery: wait {}", e))? {
            return Ok(st);
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("the tool hangs: flags {:?}", args));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(5000);
    }
}

fn st(s: &str) -> String {
    s.to_string()
}

fn speed_text(s: &mut Src) -> String {
    if s.chance(1, 2) {
        st(s.pick(&["GEOLOGIC", "GLACIAL", "MUD", "SLOW", "MED", "FAST", "PLANE", "ROCKET"]))
    } else {
        format!("{},{}", s.logrange(0, 16383), s.logrange(0, 16384))
    }
}

/// Coding flags: any subset in any order.  `ir`: without the mode flags.
fn flags(s: &mut Src, ir: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let n = match s.weighted(&[1, 3, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 4),
        _ => s.range(4, 9),
    };
    for _ in 0..n {
        let f = match s.usize(if ir { 17 } else { 25 }) {
            0 => format!("-mixing={}", s.below(8)),
            1 => st(*s.pick(&["-cm", "-contextmap", "-nocm", "-nocontextmap"])),
            2 => format!("-speed={}", speed_text(s)),
            3 => format!("-speedlow={}", speed_text(s)),
            4 => format!("-cmspeed={}", speed_text(s)),
            5 => format!("-cmspeedlow={}", speed_text(s)),
            6 => format!("-p{}", *s.pick(&[0i32, 1, 2, 3, 4, 7, 255, -1])),
            7 => format!("-priordepth={}", s.below(5)),
            8 => st(*s.pick(&["-s", "-stride", "-nostride", "-brotlistride", "-advbrotlistride", "-expbrotlistride"])),
            9 => format!("-stride={}", s.range(1, 8)),
            10 => st(*s.pick(&["-utf8", "-msb", "-lsb", "-sign"])),
            11 => st(*s.pick(&["-findprior", "-defaultprior"])),
            12 => st(*s.pick(&["-serial", "-skipcrc", "-nocrc"])),
            13 => format!("-bs{}", bs(s)),
            14 => st(*s.pick(&["-O0", "-O1", "-O2"])),
            15 => format!("-w{}", *s.pick(&[0i32, 9, 10, 11, 14, 16, 18, 22, 24, 25, 30, -3])),
            16 => format!("-window={}", s.range(10, 24)),
            17 => st("-nobrotli"),
            18 => format!("-lgwin{}", s.below(27)),
            19 => format!("-lgwin={}", s.range(16, 24)),
            20 => format!("-q{}", s.below(12)),
            21 => st(*s.pick(&["-q9.5", "-q9.5x", "-q12", "-quality=6"])),
            22 => format!("-bytescore={}", *s.pick(&[0, 1, 40, 340, 540, 1000])),
            23 => st("-findspeed"),
            _ => st("-nobrotli"),
        };
        v.push(f);
    }
    v
}

fn bs(s: &mut Src) -> usize {
    match s.weighted(&[3, 3, 1]) {
        0 => *s.pick(&[0usize, 1, 2, 3, 15, 16, 17, 255, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]),
        1 => s.logrange(1, 3000),
        _ => s.logrange(1, 1 << 20),
    }
}

fn dflags(s: &mut Src, len: usize) -> Vec<String> {
    let mut v = vec![];
    if s.chance(1, 2) {
        v.push(st("-serial"));
    }
    if s.chance(1, 2) {
        let b = bs(s);
        v.push(format!("-bs{}", b.max(if len > 200_000 { 16 } else { 0 })));
    }
    if s.chance(1, 6) {
        v.push(st(*s.pick(&["-skipcrc", "-nocrc"])));
    }
    v
}

fn plumbing(s: &mut Src) -> (In, Out) {
    (*s.pick(&[In::File, In::File, In::Redirect, In::Pipe, In::Slow]), *s.pick(&[Out::File, Out::File, Out::Pipe]))
}

fn same(r: &Ran, want: &[u8], what: &str, args: &[String]) -> Result<(), String> {
    if !r.ok() {
        return Err(format!("{} fails: flags {:?}: {}", what, args, r.why()));
    }
    if r.out != want {
        return Err(format!("{} gives other bytes: flags {:?}: {}", what, args, drive::diff(&r.out, want)));
    }
    Ok(())
}

fn has_file_bench(s: &mut Src, args: &mut Vec<String>, o: Out) -> bool {
    if o == Out::File && s.chance(1, 8) {
        args.push(st(*s.pick(&["-benchmark=2", "-benchmark=3"])));
        return true;
    }
    false
}

fn decompress(c: &mut Ctx, d: &Scratch, stream: &[u8], want: &[u8], what: &str) -> Result<(), String> {
    let mut args = dflags(&mut c.s, stream.len().max(want.len()));
    let explicit = c.s.chance(2, 3);
    if explicit {
        args.insert(0, st("-d"));
    }
    let (i, o) = plumbing(&mut c.s);
    has_file_bench(&mut c.s, &mut args, o);
    let r = run(d, &args, stream, i, o)?;
    c.checks += 1;
    c.class(if explicit { "decompress -d" } else { "decompress auto" });
    same(&r, want, &format!("{} then decompression ({:?} to {:?})", what, i, o), &args)
}

fn size(c: &mut Ctx) -> usize {
    match c.s.weighted(&[5, 6, 3, 1]) {
        0 => c.s.logrange(0, 100),
        1 => c.s.logrange(1, 5000),
        2 => c.s.logrange(1, 70_000),
        _ => c.s.logrange(1, if c.thorough { 1 << 20 } else { 200_000 }),
    }
}

fn p14(c: &mut Ctx) -> Result<(), String> {
    let d = Scratch::new(c)?;
    if let Some(r) = testdata(c, &d) {
        return r;
    }
    match c.s.weighted(&[10, 4, 8, 6, 4, 2]) {
        0 => roundtrip(c, &d),
        1 => from_library(c, &d),
        2 => ir(c, &d),
        3 => damaged(c, &d),
        4 => detection(c, &d),
        _ => full(c, &d),
    }
}

fn roundtrip(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    let lim = size(c);
    let data = gen::data(&mut c.s, lim).bytes;
    let mut args = flags(&mut c.s, false);
    if data.len() > 20_000 {
        args.retain(|a| !(a.starts_with("-bs") && a.len() < 5));
    }
    let auto = data.starts_with(&MAGIC) || c.s.chance(1, 2);
    if auto {
        let at = c.s.usize(args.len() + 1);
        args.insert(at, st("-c"));
    }
    let (i, o) = plumbing(&mut c.s);
    has_file_bench(&mut c.s, &mut args, o);
    c.desc = format!("compress {} bytes with {:?} ({:?} to {:?}), decompress", data.len(), args, i, o);
    c.class("round trip");
    let r = run(d, &args, &data, i, o)?;
    if !r.ok() {
        return Err(format!("compression fails: flags {:?}: {}", args, r.why()));
    }
    c.checks += 1;
    // -findspeed prints its findings on standard output: only the file is the stream then
    if args.iter().any(|a| a == "-findspeed") && o == Out::Pipe && !r.out.starts_with(&MAGIC) {
        return Ok(());
    }
    decompress(c, d, &r.out, &data, "compression")?;
    let lib = drive::decode(&r.out, &Pat::big(), &Pat::big(), false, false)?;
    c.checks += 1;
    drive::expect_decoded(&lib, &data, r.out.len(), "library decoding of the tool's stream")?;
    c.nontrivial = !data.is_empty();
    Ok(())
}

fn library_stream(c: &mut Ctx, lim: usize) -> Result<(Vec<u8>, Vec<u8>), String> {
    let data = gen::data(&mut c.s, lim).bytes;
    let o = gen::options(&mut c.s, 10, 22, 6, false);
    let k = if c.s.chance(1, 2) { Kind::Hybrid } else { Kind::Internal };
    let stream = drive::compress(k, o.opts, &data)?;
    Ok((data, stream))
}

fn from_library(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    let lim = size(c);
    let (data, stream) = library_stream(c, lim)?;
    c.desc = format!("library stream of {} bytes ({} compressed), decompressed by the tool", data.len(), stream.len());
    c.class("library stream");
    decompress(c, d, &stream, &data, "library compression")?;
    c.nontrivial = !data.is_empty();
    Ok(())
}

fn hex(d: &[u8]) -> String {
    let mut o = String::with_capacity(d.len() * 2);
    for b in d {
        o.push_str(&format!("{:02x}", b));
    }
    o
}

fn quoted(s: &mut Src, d: &[u8]) -> String {
    let all = s.chance(1, 4);
    let mut o = String::from("\"");
    for (k, b) in d.iter().enumerate() {
        // a trailing raw space is cut with the line
        let _ = k;
        match *b {
            b'"' => o.push_str("\\\""),
            b'\\' => o.push_str("\\\\"),
            b'\n' => o.push_str("\\n"),
            b'\r' => o.push_str("\\r"),
            b'\t' => o.push_str("\\t"),
            b'\'' if all => o.push_str("\\'"),
            b'?' if all => o.push_str("\\?"),
            x if x < 0x20 || x >= 0x7f => o.push_str(&format!("\\x{:02x}", x)),
            x => o.push(x as char),
        }
    }
    o.push('"');
    o
}

fn list(v: impl Iterator<Item = u64>) -> String {
    let mut o = String::new();
    for x in v {
        o.push(' ');
        o.push_str(&x.to_string());
    }
    o
}

pub fn text(s: &mut Src, window: u32, cs: &[C]) -> String {
    let mut o = if s.chance(1, 2) { format!("window {}\n", window) } else { format!("window {} 0 0 0\n", window) };
    for c in cs {
        match c {
            C::Lit(d, he) => {
                let cmd = if *he { "rndins" } else { "insert" };
                if s.chance(1, 3) && d.len() < 3000 {
                    let q = quoted(s, d);
                    o.push_str(&format!("{} {} {}\n", cmd, d.len(), q));
                } else {
                    let h = hex(d);
                    let h = if s.chance(1, 4) { h.to_uppercase() } else { h };
                    o.push_str(&format!("{} {} {}\n", cmd, d.len(), h));
                }
            }
            C::Copy { d, n } => o.push_str(&format!("copy {} from {}\n", n, d)),
            C::Dict { size, id, tr } => {
                let w = lz::dict_word(*size, *id, *tr);
                let raw = lz::dict_word(*size, *id, 0);
                let tail = if s.chance(1, 2) { format!(" {}", hex(&w)) } else { String::new() };
                o.push_str(&format!("dict {} word {},{} {} func {}{}\n", w.len(), size, id, hex(&raw), tr, tail));
            }
            C::BL(t, st) => {
                if *st == 0 && s.chance(1, 2) {
                    o.push_str(&format!("ltype {}\n", t));
                } else {
                    o.push_str(&format!("ltype {} {}\n", t, st));
                }
            }
            C::BC(t) => o.push_str(&format!("ctype {}\n", t)),
            C::BD(t) => o.push_str(&format!("dtype {}\n", t)),
            C::Pm(p) => {
                o.push_str("prediction ");
                o.push_str(["lsb6", "msb6", "utf8", "sign"][(p.mode & 3) as usize]);
                let mut parts: Vec<String> = vec![];
                if !p.lit_map.is_empty() {
                    parts.push(format!(" lcontextmap{}", list(p.lit_map.iter().map(|x| *x as u64))));
                }
                let dm = brotli::enc::interface::DISTANCE_CONTEXT_MAP_OFFSET;
                if p.rest.len() > dm {
                    parts.push(format!(" dcontextmap{}", list(p.rest[dm..].iter().map(|x| *x as u64))));
                }
                if s.chance(1, 2) {
                    let m = brotli::enc::interface::MIXING_OFFSET;
                    let k = s.logrange(0, brotli::enc::interface::NUM_MIXING_VALUES);
                    parts.push(format!(" mixingvalues{}", list(p.rest[m..m + k].iter().map(|x| *x as u64 % 9))));
                }
                for k in ["cm", "st", "mx"].iter() {
                    if s.chance(1, 2) {
                        parts.push(format!(" {}speedinc {} {}", k, s.logrange(0, 2048), s.logrange(0, 2048)));
                        parts.push(format!(" {}speedmax {} {}", k, s.logrange(0, 12287), s.logrange(0, 12287)));
                    }
                }
                if s.chance(1, 4) {
                    parts.reverse();
                }
                o.push_str(&parts.concat());
                o.push('\n');
            }
        }
    }
    if s.chance(1, 5) && o.ends_with('\n') {
        o.pop();
    }
    if s.chance(1, 8) {
        o = o.replace('\n', "\r\n");
    }
    o
}

fn ir_check(c: &mut Ctx, d: &Scratch, txt: &str, want: &[u8], compress: bool, what: &str) -> Result<(), String> {
    let (i, o) = plumbing(&mut c.s);
    if compress {
        let mut args = flags(&mut c.s, true);
        args.insert(0, st("-i"));
        let r = run(d, &args, txt.as_bytes(), i, o)?;
        if !r.ok() {
            return Err(format!("compressing {} fails: flags {:?}: {}", what, args, r.why()));
        }
        c.checks += 1;
        decompress(c, d, &r.out, want, &format!("compressing {} with {:?}", what, args))?;
    } else {
        let args = vec![st("-d"), st("--recode")];
        let r = run(d, &args, txt.as_bytes(), i, o)?;
        c.checks += 1;
        same(&r, want, &format!("replaying {}", what), &args)?;
    }
    Ok(())
}

fn ir(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    let w = match c.s.weighted(&[4, 3]) {
        0 => 10 + c.s.below(4) as u32,
        _ => 10 + c.s.below(15) as u32,
    };
    let max_out = match c.s.weighted(&[4, 2, 1]) {
        0 => 3000,
        1 => 40_000,
        _ => 200_000,
    };
    let co = lz::CmdOpts { window: w, max_out, max_cmds: 120, meta: true, max_dist_slack: 16, huge: false };
    let (cs, want) = lz::commands(&mut c.s, &co);
    let txt = text(&mut c.s, w, &cs);
    c.desc = format!("window {}: {} -> {} bytes", w, lz::brief(&cs), want.len());
    c.class("textual commands");
    if c.s.chance(1, 2) {
        ir_check(c, d, &txt, &want, false, "textual commands")?;
    }
    if c.s.chance(2, 3) {
        ir_check(c, d, &txt, &want, true, "textual commands")?;
    }
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// The first cases: the repository's own IR files against the files they were made from.
fn testdata(c: &mut Ctx, d: &Scratch) -> Option<Result<(), String>> {
    let dir = Path::new("/repo/testdata");
    let mut v: Vec<(PathBuf, PathBuf)> = vec![];
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let n = p.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
            if let Some(stem) = n.strip_suffix(".ir") {
                let mut base = stem.to_string();
                loop {
                    let raw = dir.join(&base);
                    if raw.is_file() {
                        v.push((p.clone(), raw));
                        break;
                    }
                    match base.rfind('-') {
                        Some(k) => base.truncate(k),
                        None => break,
                    }
                }
            }
        }
    }
    v.sort();
    let k = c.index as usize;
    if k >= 2 * v.len() {
        return None;
    }
    let (irp, raw) = &v[k / 2];
    let txt = fs::read_to_string(irp).ok()?;
    let want = fs::read(raw).ok()?;
    // these files are a brotli window's worth: only if the reference reading of the text agrees
    c.desc = format!("{} {}", irp.display(), if k % 2 == 0 { "--recode" } else { "-i" });
    c.class("testdata IR");
    c.nontrivial = true;
    Some(ir_check(c, d, &txt, &want, k % 2 == 1, &format!("{}", irp.display())))
}

fn damaged(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    let lim = match c.s.weighted(&[3, 2]) {
        0 => 400,
        _ => 20_000,
    };
    let (data, mut stream) = library_stream(c, lim)?;
    let whole = stream.clone();
    c.class("damaged stream");
    let mut args = dflags(&mut c.s, stream.len());
    let skip = args.iter().any(|a| a == "-skipcrc" || a == "-nocrc");
    let how;
    let truncated;
    if c.s.chance(1, 2) {
        let n = match c.s.usize(3) {
            0 => c.s.usize(stream.len()),
            1 => stream.len() - 1 - c.s.logrange(0, 12.min(stream.len() - 1)),
            _ => c.s.usize(stream.len().min(20)),
        };
        stream.truncate(n);
        how = format!("cut to {}", n);
        truncated = true;
    } else {
        let k = c.s.range(1, 3);
        let mut at = vec![];
        for _ in 0..k {
            let p = c.s.usize(stream.len());
            let x = 1 << c.s.below(8);
            stream[p] ^= x as u8;
            at.push((p, x));
        }
        how = format!("flipped {:?}", at);
        truncated = false;
    }
    c.desc = format!("stream of {} bytes ({} of content) {}, decompressed with {:?}", whole.len(), data.len(), how, args);
    args.insert(0, st("-d"));
    let (i, o) = plumbing(&mut c.s);
    let r = run(d, &args, &stream, i, o)?;
    c.checks += 1;
    if let Some(sig) = r.signal {
        return Err(format!("the tool dies by signal on a damaged stream: {} {}: flags {:?}", sig, how, args));
    }
    if r.ok() && (truncated || (!skip && r.out != data)) && stream != whole {
        return Err(format!(
            "exit status 0 on a damaged stream: {} of {} bytes, flags {:?}, {} bytes of output for {}",
            how,
            whole.len(),
            args,
            r.out.len(),
            data.len()
        ));
    }
    c.nontrivial = stream != whole;
    Ok(())
}

fn detection(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    c.class("mode detection");
    let kind = c.s.usize(5);
    let (i, o) = plumbing(&mut c.s);
    let mut args = flags(&mut c.s, false);
    args.retain(|a| a != "-findspeed");
    if kind < 3 {
        // raw data near the magic number, compressed without -c
        let mut data: Vec<u8> = match kind {
            0 => {
                let k = c.s.usize(4);
                MAGIC[..k].to_vec()
            }
            1 => {
                let mut m = MAGIC.to_vec();
                let k = c.s.usize(4);
                m[k] ^= 1 << c.s.below(8);
                m
            }
            _ => {
                let k = c.s.range(1, 20);
                let mut m = vec![0u8; k];
                m.extend_from_slice(&MAGIC);
                m
            }
        };
        let n = match c.s.weighted(&[4, 3, 2]) {
            0 => 0,
            1 => c.s.range(1, 20),
            _ => c.s.logrange(1, 3000),
        };
        let k = c.s.usize(gen::SEG_NAMES.len());
        gen::segment(&mut c.s, k, n, &mut data);
        if data.starts_with(&MAGIC) {
            data[0] = 0;
        }
        c.desc = format!("raw data {:02x?}.. ({} bytes), flags {:?}, no -c ({:?} to {:?})", &data[..data.len().min(8)], data.len(), args, i, o);
        let r = run(d, &args, &data, i, o)?;
        c.checks += 1;
        if !r.ok() {
            return Err(format!("compression of raw data fails: {} {}", c.desc, r.why()));
        }
        if !r.out.starts_with(&MAGIC) {
            return Err(format!("raw data is not compressed: {}", c.desc));
        }
        decompress(c, d, &r.out, &data, "compression without -c")?;
        c.nontrivial = !data.is_empty();
    } else {
        // a stream of a stream: -c compresses it again, without -c it is unpacked
        let (data, stream) = library_stream(c, 3000)?;
        args.push(st("-c"));
        let named = c.s.chance(1, 3);
        let name = if named { *c.s.pick(&["-d", "-c", "--recode", "-i", "-x"]) } else { "in.bin" };
        c.desc = format!("stream of {} bytes compressed again with {:?}, name {:?}", stream.len(), args, name);
        let r = run_named(d, &args, &stream, if named { In::File } else { i }, o, name, named)?;
        c.checks += 1;
        if !r.ok() {
            return Err(format!("compressing a stream with -c fails: {:?}: {}", args, r.why()));
        }
        let one = run(d, &[], &r.out, i, Out::Pipe)?;
        same(&one, &stream, "unpacking a twice compressed stream once", &[])?;
        decompress(c, d, &one.out, &data, "unpacking once")?;
        c.nontrivial = !data.is_empty();
    }
    Ok(())
}

/// Output that cannot be written, input that cannot be read: a nonzero exit status.
fn full(c: &mut Ctx, d: &Scratch) -> Result<(), String> {
    c.class("unwritable output");
    let (data, stream) = library_stream(c, 3000)?;
    let mode = c.s.usize(4);
    let (args, input, empty): (Vec<String>, Vec<u8>, bool) = match mode {
        0 => (vec![st("-c")], data.clone(), false),
        1 => (vec![st("-d")], stream, data.is_empty()),
        2 => (vec![st("-d"), st("--recode")], format!("window 16\ninsert {} {}\n", data.len(), hex(&data)).into_bytes(), data.is_empty()),
        _ => (vec![st("-i")], format!("window 16\ninsert {} {}\n", data.len(), hex(&data)).into_bytes(), false),
    };
    d.put("in.bin", &input)?;
    let how = c.s.usize(4);
    let mut cmd = Command::new(tool());
    cmd.current_dir(&d.0).env("RUST_BACKTRACE", "0").args(&args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    match how {
        0 => {
            cmd.args(&["in.bin", "/dev/full"]);
        }
        1 => {
            cmd.arg("in.bin").stdout(fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("machinery: /dev/full {}", e))?);
        }
        2 => {
            cmd.args(&["in.bin", "no-such-directory/out"]);
        }
        _ => {
            cmd.args(&["no-such-file", "out"]);
        }
    }
    c.desc = format!("{:?} of {} bytes, {}", args, data.len(), ["output to a full device", "standard output to a full device", "output in a missing directory", "missing input"][how]);
    let mut ch = cmd.spawn().map_err(|e| format!("machinery: cannot start the tool: {}", e))?;
    let status = wait(&mut ch, &args)?;
    c.checks += 1;
    if status.success() && !(empty && how < 2) {
        return Err(format!("exit status 0 although nothing could be written or read: {}", c.desc));
    }
    if let Some(sig) = status.signal() {
        return Err(format!("the tool dies by signal: {} {}", sig, c.desc));
    }
    c.nontrivial = !data.is_empty();
    Ok(())
}
