//! Independent reference implementations.

/// CRC-32C, bit by bit.
/// The same with a table of single bytes, for long inputs.
pub fn crc32c_long(b: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for (i, e) in t.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
        *e = c;
    }
    let mut c = !0u32;
    for x in b {
        c = (c >> 8) ^ t[(c as u8 ^ x) as usize];
    }
    !c
}

pub fn crc32c(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    !c
}
