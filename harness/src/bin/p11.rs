//! P11 with the private models: the fast and the reference model, the multi-speed wrapper, the blending model.
use divans::verif::probability::{BlendCDF16, FrequentistCDF16, OptFrequentistCDF16, VariantSpeedCDF};
use divans::{BaseCDF, CDF16};
use dvh::props::coder::*;
use dvh::runner::{Ctx, Prop};
#[global_allocator]
static HEAP: dvh::heap::Watch = dvh::heap::Watch;

fn blend_model(m: &BlendCDF16, what: &str) -> Result<(), String> {
    if !m.valid() {
        return Err(format!("valid: {} reports itself invalid: {:?}", what, m.cdf));
    }
    check_model(m, false, what).map(|_| ())
}

fn case(c: &mut Ctx) -> Result<(), String> {
    p11_with(c, |c, h, ws| {
        // step by step: fast, reference, and the default model inside the wrapper
        let mut fast = [OptFrequentistCDF16::default(); 2];
        let mut slow = [FrequentistCDF16::default(); 2];
        let mut var = [VariantSpeedCDF::<FrequentistCDF16>::default(); 2];
        let mut bl = [BlendCDF16::default(); 2];
        for (i, (w, sym, sp)) in h.iter().enumerate() {
            fast[*w].blend(*sym, *sp);
            slow[*w].blend(*sym, *sp);
            same(&fast[*w], &slow[*w], &format!("fast and reference model after {} updates", i + 1))?;
            if !fast[*w].valid() || !slow[*w].valid() {
                return Err(format!("valid: a model reports itself invalid after {} updates", i + 1));
            }
            if i < 200 {
                var[*w].blend(*sym, *sp);
                if i < 20 || i % 8 == 0 {
                    same(&var[*w], &slow[*w], &format!("multi-speed wrapper and reference model after {} updates", i + 1))?;
                }
            }
            bl[*w].blend(*sym, *sp);
            if i < 64 || i % 16 == 0 || i + 1 == h.len() {
                blend_model(&bl[*w], &format!("the blending model after {} updates", i + 1))?;
            }
            c.checks += 3;
        }
        run_history::<FrequentistCDF16>(c, h, "the reference model")?;
        for w in ws {
            let (a, b) = (fast[0].average(&fast[1], *w), slow[0].average(&slow[1], *w));
            same(&a, &b, &format!("averages with weight {}", w))?;
            c.checks += check_model(&b, false, &format!("the reference average with weight {}", w))?;
            if !a.valid() {
                return Err(format!("valid: the average with weight {} reports itself invalid", w));
            }
            if bl[1].used() {
                blend_model(&bl[0].average(&bl[1], *w), &format!("the blending average with weight {}", w))?;
            }
        }
        Ok(())
    })
}

fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let p = [Prop { id: "P11", quick: 60000, thorough: 1000000, rule: P11_RULE, case, cpu_limit: 60, spawns: false, mem_mb: 4000, exhaustive: false }];
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
