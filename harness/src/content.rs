//! Deterministic file contents, a pure function of (seed, len).

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The 8 bytes of block `i` of the content with this seed.
/// seed % 8: 0..=4 incompressible, 5 repetitive, 6 zero, 7 0xff.
fn block(seed: u64, i: u64) -> [u8; 8] {
    match seed % 8 {
        5 => {
            // low entropy, but each sector is distinguishable
            if i % 256 == 0 {
                (mix(seed) ^ (i / 256)).to_le_bytes()
            } else {
                [(seed >> 3) as u8; 8]
            }
        }
        6 => [0; 8],
        7 => [0xff; 8],
        _ => mix(seed ^ mix(i)).to_le_bytes(),
    }
}

pub fn bytes(seed: u64, len: u64) -> Vec<u8> {
    range(seed, len, 0, len)
}

/// Bytes [off, off+n) of the content, clamped to its length.
pub fn range(seed: u64, len: u64, off: u64, n: u64) -> Vec<u8> {
    let start = off.min(len);
    let end = off.saturating_add(n).min(len);
    let mut out = Vec::with_capacity((end - start) as usize);
    let mut pos = start;
    while pos < end {
        let b = block(seed, pos / 8);
        let o = (pos % 8) as usize;
        let take = (8 - o).min((end - pos) as usize);
        out.extend_from_slice(&b[o..o + take]);
        pos += take as u64;
    }
    out
}
