//! P17 with the private division functions: all divisors.
use divans::verif::probability::numeric::{compute_divisor, compute_divisor8, fast_divide_16bit_by_8bit, fast_divide_30bit_by_16bit, lookup_divisor, lookup_divisor8};
use dvh::props::coder::*;
use dvh::runner::{Ctx, Prop};
use dvh::src::Rng;
#[global_allocator]
static HEAP: dvh::heap::Watch = dvh::heap::Watch;

const N16: u64 = 32767;
const N8: u64 = 255;

fn case(c: &mut Ctx) -> Result<(), String> {
    let i = c.index % (N16 + N8 + 1000);
    let seed = c.s.u64();
    let mut r = Rng::new(seed);
    if i < N16 {
        let d = (i + 1) as i16;
        c.desc = format!("16-bit divisor {}", d);
        if lookup_divisor(d) != compute_divisor(d) {
            return Err(format!("table: divisor {}: precomputed {:?}, computed {:?}", d, lookup_divisor(d), compute_divisor(d)));
        }
        let rec = lookup_divisor(d);
        c.checks += division(d as i64, &mut r, |v| fast_divide_30bit_by_16bit(v, rec))?;
        c.key = Some(i);
        c.nontrivial = d & (d - 1) != 0;
        c.class("16-bit divisor");
    } else if i < N16 + N8 {
        let d = (i - N16 + 1) as u8;
        c.desc = format!("8-bit divisor {}", d);
        if lookup_divisor8(d) != compute_divisor8(d) {
            return Err(format!("table: 8-bit divisor {}: precomputed {}, computed {}", d, lookup_divisor8(d), compute_divisor8(d)));
        }
        for v in 0..=65535u16 {
            let q = fast_divide_16bit_by_8bit(v, lookup_divisor8(d)) as u16;
            if q != v / d as u16 {
                return Err(format!("quotient: {} / {} gives {} instead of {}", v, d, q, v / d as u16));
            }
        }
        c.checks += 65536;
        c.key = Some(i);
        c.nontrivial = d & (d - 1) != 0;
        c.class("8-bit divisor");
    } else {
        return p17_public(c);
    }
    Ok(())
}

fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let n = N16 + N8 + 1000;
    let p = [Prop { id: "P17", quick: n, thorough: n * 20, rule: P17_RULE, case, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: true }];
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
