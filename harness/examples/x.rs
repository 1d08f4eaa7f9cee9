use std::io::Write;
fn main(){
 for i in 0..400u64 {
  let mut s=dvh::src::Src::fresh(i); let mut o=dvh::gen::options(&mut s,10,24,9,true); let d=dvh::gen::data(&mut s,2_000_000);
  o.opts.use_brotli=divans::BrotliCompressionSetting::UseBrotliCommandSelection;
  let mut out=vec![];
  let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||{
  let mut w=divans::DivansBrotliHybridCompressorWriter::new(&mut out, o.opts, 4096);
  w.write(&d.bytes)}));  match r {Ok(Ok(_))=>{}, e=>println!("{} {} write {:?} {:?}",i, d.bytes.len(),e.map_err(|_|()),o.opts)}
 }
}
