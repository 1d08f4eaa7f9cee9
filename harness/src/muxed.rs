//! Independent reader/writer of the container: header, multiplexed chunks, end marker, trailer.

pub const EOF: [u8; 3] = [0xff, 0xfe, 0xff];

/// Split the body of a valid stream (without header and 8-byte trailer) into its two sub-streams.
/// None when the framing is not well formed.
pub fn demux(stream: &[u8]) -> Option<[Vec<u8>; 2]> {
    if stream.len() < 16 + 3 + 8 {
        return None;
    }
    let b = &stream[16..stream.len() - 8];
    let mut out = [vec![], vec![]];
    let mut i = 0;
    loop {
        let h = *b.get(i)?;
        if h == 0xff {
            return if b[i..] == EOF { Some(out) } else { None };
        }
        let id = (h & 1) as usize;
        let n;
        if h < 16 {
            n = (*b.get(i + 1)? as usize | (*b.get(i + 2)? as usize) << 8) + 1;
            i += 3;
        } else {
            n = 1024usize << ((h >> 4) << 1);
            i += 1;
        }
        out[id].extend_from_slice(b.get(i..i + n)?);
        i += n;
    }
}

/// Chunk sizes to use when re-multiplexing.
pub fn remux(sub: &[Vec<u8>; 2], order: &mut dyn FnMut() -> (usize, usize)) -> Vec<u8> {
    let mut at = [0usize; 2];
    let mut o = vec![];
    while at[0] < sub[0].len() || at[1] < sub[1].len() {
        let (mut id, want) = order();
        id &= 1;
        if at[id] == sub[id].len() {
            id ^= 1;
        }
        let left = sub[id].len() - at[id];
        let n = want.max(1).min(left).min(65536);
        o.push(id as u8);
        o.push((n - 1) as u8);
        o.push(((n - 1) >> 8) as u8);
        o.extend_from_slice(&sub[id][at[id]..at[id] + n]);
        at[id] += n;
    }
    o
}

/// header + body + end marker + trailer
pub fn wrap(header: &[u8], body: &[u8]) -> Vec<u8> {
    let mut o = header.to_vec();
    o.extend_from_slice(body);
    o.extend_from_slice(&EOF);
    let crc = crate::refs::crc32c(&o);
    o.extend_from_slice(&crc.to_le_bytes());
    o.extend_from_slice(b"ans~");
    o
}

/// Whether the framing after the header leads to an end marker.
pub fn reaches_end(stream: &[u8]) -> bool {
    let mut i = 16;
    while i < stream.len() {
        let h = stream[i];
        if h == 0xff {
            return stream[i..].starts_with(&EOF);
        }
        if h < 16 {
            if i + 3 > stream.len() {
                return false;
            }
            i += 3 + (stream[i + 1] as usize | (stream[i + 2] as usize) << 8) + 1;
        } else {
            i += 1 + (1024usize << ((h >> 4) << 1));
        }
    }
    false
}
