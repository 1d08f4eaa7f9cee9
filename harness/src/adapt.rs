//! Helpers over the reader and writer adaptors.
use divans::DivansDecompressorReader;
use std::io::Read;

/// Read everything through the decompressing reader; bounded, so a reader that spins is reported.
pub fn read_all(input: &[u8], bufsz: usize, rd: usize, skip: bool) -> Result<(Vec<u8>, Option<String>), String> {
    let mut r = DivansDecompressorReader::new(input, bufsz, skip, false);
    let mut out = vec![];
    let mut buf = vec![0u8; rd];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Ok((out, None)),
            Ok(n) => {
                if n > buf.len() {
                    return Err(format!("reader: read returned {} for a buffer of {}", n, buf.len()));
                }
                out.extend_from_slice(&buf[..n]);
            }
            Err(e) => return Ok((out, Some(format!("{:?}: {}", e.kind(), e)))),
        }
    }
}
