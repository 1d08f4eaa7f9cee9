//! P16 with the private checksum function.
use divans::verif::crc32::{crc32c_init, crc32c_update};
use dvh::gen;
use dvh::props::coder::*;
use dvh::refs::{crc32c, crc32c_long};
use dvh::runner::{Ctx, Prop};
#[global_allocator]
static HEAP: dvh::heap::Watch = dvh::heap::Watch;

/// One long update (up to 24 MiB) between two short ones.
fn long(c: &mut Ctx) -> Result<(), String> {
    let top = 1usize << c.s.range(15, 23);
    let more = if c.s.chance(1, 2) { 40 } else { top };
    let n = top + c.s.logrange(0, more);
    let pre = c.s.usize(20);
    let post = c.s.usize(20);
    let mut r = dvh::src::Rng::new(c.s.u64());
    let b: Vec<u8> = (0..pre + n + post).map(|i| if i & 7 == 0 { r.next() as u8 } else { (i * 31) as u8 ^ (i >> 9) as u8 }).collect();
    let mut crc = crc32c_update(crc32c_init(), &b[..pre]);
    crc = crc32c_update(crc, &b[pre..pre + n]);
    crc = crc32c_update(crc, &b[pre + n..]);
    let want = crc32c_long(&b);
    c.desc = format!("updates of {}, {} and {} bytes", pre, n, post);
    c.nontrivial = true;
    c.class("long update");
    c.checks += 1;
    if crc != want {
        return Err(format!("checksum: after updates of {}, {} and {} bytes: {:#010x} instead of {:#010x}", pre, n, post, crc, want));
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Result<(), String> {
    if c.index % 64 == 1 {
        return p16_trailer(c);
    }
    if c.index % 512 == 3 {
        return long(c);
    }
    if c.index == 0 {
        // every table entry on its own, from a neutral and from an arbitrary running value
        for pos in 0..16 {
            for v in 0..256 {
                for pre in [&b""[..], &b"x"[..]] {
                    let mut b = [0u8; 16];
                    b[pos] = v as u8;
                    let mut all = pre.to_vec();
                    all.extend_from_slice(&b);
                    let got = crc32c_update(crc32c_update(crc32c_init(), pre), &b);
                    if got != crc32c(&all) {
                        return Err(format!("table: byte {:#x} at position {} after {:?}: {:#010x} instead of {:#010x}", v, pos, pre, got, crc32c(&all)));
                    }
                    c.checks += 1;
                }
            }
        }
        for v in 0..=255u8 {
            if crc32c_update(crc32c_init(), &[v]) != crc32c(&[v]) {
                return Err(format!("table: single byte {:#x}", v));
            }
        }
    }
    let d = gen::data(&mut c.s, 4096).bytes;
    let align = c.s.usize(16);
    let mut store = vec![0u8; align];
    store.extend_from_slice(&d);
    // align relative to a 16-byte boundary
    let base = store.as_ptr() as usize & 15;
    let buf = &store[align..];
    let style = c.s.usize(4);
    let mut pos = 0;
    let mut crc = crc32c_init();
    let mut cuts = 0u64;
    while pos < buf.len() || cuts == 0 {
        let left = buf.len() - pos;
        let n = match style {
            0 => left,
            1 => c.s.logrange(0, left),
            2 => (1 + c.s.usize(40)).min(left),
            _ => [16, 15, 17, 32, 1, 0][c.s.usize(6)].min(left),
        };
        crc = crc32c_update(crc, &buf[pos..pos + n]);
        pos += n;
        cuts += 1;
        if cuts < 64 || pos == buf.len() {
            let want = crc32c(&buf[..pos]);
            if crc != want {
                return Err(format!("checksum: after update {} of {} bytes (total {}): {:#010x} instead of {:#010x}", cuts, n, pos, crc, want));
            }
            c.checks += 1;
        }
        if cuts > 20000 {
            break;
        }
    }
    c.desc = format!("{} bytes at alignment {} in {} updates", buf.len(), (base + align) & 15, cuts);
    c.nontrivial = buf.len() >= 32 && cuts >= 2;
    c.class("updates");
    Ok(())
}

fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let p = [Prop { id: "P16", quick: 60000, thorough: 3000000, rule: P16_RULE, case, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false }];
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
