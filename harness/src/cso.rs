//! An independent reader of version 2 CISO files (LZ4 blocks).

pub struct Cso {
    pub image: Vec<u8>,
    pub compressed_blocks: usize,
    pub raw_blocks: usize,
    /// What readers that take a block's length from the index see in the last sector, where it differs:
    /// the end of the last block is not representable in the index if it is not aligned.
    pub last_sector_by_index: Option<Vec<u8>>,
}

fn u32at(b: &[u8], o: usize) -> Result<u32, String> {
    b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).ok_or_else(|| "the file is too short".into())
}

pub fn lz4_block(src: &[u8]) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = vec![];
    let mut i = 0;
    let bad = || "corrupt LZ4 block".to_string();
    loop {
        let t = *src.get(i).ok_or_else(bad)?;
        i += 1;
        let mut n = (t >> 4) as usize;
        if n == 15 {
            loop {
                let b = *src.get(i).ok_or_else(bad)?;
                i += 1;
                n += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        out.extend_from_slice(src.get(i..i + n).ok_or_else(bad)?);
        i += n;
        if i == src.len() {
            return Ok(out);
        }
        let off = u16::from_le_bytes([*src.get(i).ok_or_else(bad)?, *src.get(i + 1).ok_or_else(bad)?]) as usize;
        i += 2;
        let mut m = (t & 15) as usize;
        if m == 15 {
            loop {
                let b = *src.get(i).ok_or_else(bad)?;
                i += 1;
                m += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        m += 4;
        if off == 0 || off > out.len() || out.len() + m > 1 << 20 {
            return Err(bad());
        }
        for _ in 0..m {
            out.push(out[out.len() - off]);
        }
    }
}

pub fn decode(f: &[u8]) -> Result<Cso, String> {
    if f.get(..4) != Some(b"CISO") || u32at(f, 4)? != 24 {
        return Err("no CISO header".into());
    }
    let size = u32at(f, 8)? as u64 | (u32at(f, 12)? as u64) << 32;
    let bs = u32at(f, 16)? as usize;
    if bs != 2048 || f[20] != 2 {
        return Err(format!("block size {bs}, version {}", f[20]));
    }
    let shift = f[21] as u32;
    if size % 2048 != 0 {
        return Err(format!("uncompressed size {size} is not a multiple of the block size"));
    }
    let n = (size / 2048) as usize;
    if n > 1 << 22 {
        return Err("too large for this reader".into());
    }
    let mut c = Cso { image: Vec::with_capacity(n * 2048), compressed_blocks: 0, raw_blocks: 0, last_sector_by_index: None };
    let mut prev_end = 24 + 4 * (n as u64 + 1);
    for k in 0..n {
        let e = u32at(f, 24 + 4 * k)?;
        let pos = ((e & 0x7fff_ffff) as u64) << shift;
        let next = ((u32at(f, 24 + 4 * (k + 1))? & 0x7fff_ffff) as u64) << shift;
        if pos < prev_end {
            return Err(format!("block {k} starts at {pos}, before the end of what precedes it ({prev_end})"));
        }
        if next < pos {
            return Err(format!("the index goes backwards at block {k}"));
        }
        let p = pos as usize;
        if e >> 31 == 0 {
            let b = f.get(p..p + 2048).ok_or_else(|| format!("block {k} lies beyond the end of the file"))?;
            c.image.extend_from_slice(b);
            c.raw_blocks += 1;
            prev_end = pos + 2048;
            if next - pos < 2048 {
                return Err(format!("the index gives raw block {k} {} bytes", next - pos));
            }
        } else {
            let l = u32at(f, p)? as usize;
            if l >> 31 != 0 {
                return Err(format!("block {k}: unexpected stored block"));
            }
            let b = f.get(p + 4..p + 4 + l).ok_or_else(|| format!("block {k} lies beyond the end of the file"))?;
            let d = lz4_block(b).map_err(|e| format!("block {k}: {e}"))?;
            if d.len() != 2048 {
                return Err(format!("block {k} decompresses to {} bytes", d.len()));
            }
            c.image.extend_from_slice(&d);
            c.compressed_blocks += 1;
            prev_end = pos + 4 + l as u64;
            if next < prev_end {
                let short = (prev_end - next) as usize;
                if k + 1 != n || short >= 1 << shift {
                    return Err(format!("the index gives block {k} {} bytes, it has {}", next - pos, 4 + l));
                }
                let mut b = b.to_vec();
                let z = b.len() - short;
                b[z..].fill(0);
                c.last_sector_by_index = Some(lz4_block(&b).unwrap_or_default());
            }
        }
    }
    Ok(c)
}
