use crate::runner::Prop;
pub mod bad;
pub mod capi;
pub mod cli;
pub mod coder;
pub mod core;
pub mod ext;
pub mod mem;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(core::props());
    v.extend(bad::props());
    v.extend(capi::props());
    v.extend(cli::props());
    v.extend(coder::props());
    v.extend(ext::props());
    v.extend(mem::props());
    v
}
