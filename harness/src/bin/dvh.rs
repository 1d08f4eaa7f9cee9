#[global_allocator]
static HEAP: dvh::heap::Watch = dvh::heap::Watch;
fn main() {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let p = dvh::props::all();
    std::process::exit(dvh::runner::main_with(std::path::Path::new(&root), &p));
}
