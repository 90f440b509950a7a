//! Independent CSO v2 decoder (LZ4 blocks) used as oracle, and an encoder for test inputs.
use crate::simfmt::*;

pub struct Cso {
    pub data: FileData,
    /// The end of the last sector's compressed data is not representable in the index
    /// (the index entry after it is rounded down), so readers relying on it fail on that sector.
    pub last_index_truncated: bool,
}

fn lz4_block(src: &[u8], want: usize) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = Vec::with_capacity(want);
    let mut i = 0;
    let get = |i: usize| -> Result<u8, String> { src.get(i).copied().ok_or_else(|| "lz4: input ends early".to_string()) };
    loop {
        let tok = get(i)?;
        i += 1;
        let mut lit = (tok >> 4) as usize;
        if lit == 15 {
            loop {
                let b = get(i)?;
                i += 1;
                lit += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        if i + lit > src.len() {
            return Err("lz4: literals run past the input".into());
        }
        out.extend_from_slice(&src[i..i + lit]);
        i += lit;
        if i == src.len() {
            break;
        }
        let off = get(i)? as usize | (get(i + 1)? as usize) << 8;
        i += 2;
        let mut ml = (tok & 15) as usize;
        if ml == 15 {
            loop {
                let b = get(i)?;
                i += 1;
                ml += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        ml += 4;
        if off == 0 || off > out.len() {
            return Err("lz4: bad offset".into());
        }
        for _ in 0..ml {
            let b = out[out.len() - off];
            out.push(b);
        }
        if out.len() > want {
            return Err("lz4: output too long".into());
        }
    }
    if out.len() != want {
        return Err(format!("lz4: {} bytes instead of {}", out.len(), want));
    }
    Ok(out)
}

pub fn decode(f: &FileData) -> Result<Cso, String> {
    let mut h = [0u8; 24];
    if f.read_at(0, &mut h) != 24 {
        return Err("no header".into());
    }
    if &h[..4] != b"CISO" {
        return Err("bad magic".into());
    }
    let size = u64::from_le_bytes(h[8..16].try_into().unwrap());
    let bs = u32::from_le_bytes(h[16..20].try_into().unwrap());
    if u32::from_le_bytes(h[4..8].try_into().unwrap()) != 24 || h[20] != 2 || bs != 2048 {
        return Err("bad header".into());
    }
    let align = h[21];
    if size % 2048 != 0 || size > 64 << 30 {
        return Err(format!("bad uncompressed size {}", size));
    }
    let n = (size / 2048) as usize;
    let mut idx = vec![0u8; (n + 1) * 4];
    if f.read_at(24, &mut idx) != idx.len() {
        return Err("index table cut off".into());
    }
    let ent = |i: usize| -> (u64, bool) {
        let v = u32::from_le_bytes(idx[i * 4..i * 4 + 4].try_into().unwrap());
        (((v & 0x7fff_ffff) as u64) << align, v >> 31 == 1)
    };
    let mut data = FileData { len: size, ..Default::default() };
    let mut last_index_truncated = false;
    let mut min_next = (24 + idx.len()) as u64;
    for i in 0..n {
        let (pos, comp) = ent(i);
        let (next, _) = ent(i + 1);
        if pos < min_next {
            return Err(format!("sector {} overlaps earlier data", i));
        }
        if next < pos {
            return Err(format!("index not ascending at sector {}", i));
        }
        let end;
        if comp {
            let mut b = [0u8; 4];
            if f.read_at(pos, &mut b) != 4 {
                return Err(format!("sector {} is cut off", i));
            }
            let bl = u32::from_le_bytes(b) as u64;
            if bl > 4096 {
                return Err(format!("sector {}: block size {}", i, bl));
            }
            let mut src = vec![0u8; bl as usize];
            if f.read_at(pos + 4, &mut src) != src.len() {
                return Err(format!("sector {} is cut off", i));
            }
            let out = lz4_block(&src, 2048).map_err(|e| format!("sector {}: {}", i, e))?;
            if out.iter().any(|x| *x != 0) {
                data.write_at(i as u64 * 2048, &out);
            }
            end = pos + 4 + bl;
        } else {
            let mut out = vec![0u8; 2048];
            if f.read_at(pos, &mut out) != 2048 {
                return Err(format!("sector {} is cut off", i));
            }
            data.write_at(i as u64 * 2048, &out);
            end = pos + 2048;
        }
        if next < end {
            if i + 1 == n && next + (1 << align) > end {
                last_index_truncated = true;
            } else {
                return Err(format!("sector {} ends at {} but the index says {}", i, end, next));
            }
        }
        min_next = end;
    }
    data.len = size;
    Ok(Cso { data, last_index_truncated })
}

/// Minimal LZ4 block: literals only, or a long run of one byte.
fn lz4_encode(sec: &[u8]) -> Option<Vec<u8>> {
    let c = sec[0];
    let run = sec.iter().take_while(|x| **x == c).count();
    if run < 1500 {
        return None;
    }
    // literal c, match offset 1 length run-1 (keep 12 literals at the end)
    let mut out = vec![];
    let m = run.min(2048 - 12) - 1;
    out.push(0x1f);
    out.push(c);
    out.extend_from_slice(&[1, 0]);
    let mut rest = m - 4 - 15;
    while rest >= 255 {
        out.push(255);
        rest -= 255;
    }
    out.push(rest as u8);
    let lit = &sec[1 + m..];
    if lit.len() < 15 {
        out.push((lit.len() as u8) << 4);
    } else {
        out.push(0xf0);
        let mut r = lit.len() - 15;
        while r >= 255 {
            out.push(255);
            r -= 255;
        }
        out.push(r as u8);
    }
    out.extend_from_slice(lit);
    Some(out)
}

/// Encodes an image as CSO (image length must be a multiple of the sector size).
pub fn encode(img: &FileData) -> FileData {
    let n = (img.len / 2048) as usize;
    let mut out = FileData::default();
    let mut h = vec![0u8; 24];
    h[..4].copy_from_slice(b"CISO");
    h[4..8].copy_from_slice(&24u32.to_le_bytes());
    h[8..16].copy_from_slice(&img.len.to_le_bytes());
    h[16..20].copy_from_slice(&2048u32.to_le_bytes());
    h[20] = 2;
    h[21] = 2;
    out.write_at(0, &h);
    let mut pos = 24 + 4 * (n as u64 + 1);
    let mut idx = vec![];
    for i in 0..n {
        let mut s = vec![0u8; 2048];
        img.read_at(i as u64 * 2048, &mut s);
        pos = pos.div_ceil(4) * 4;
        match lz4_encode(&s) {
            Some(c) => {
                idx.extend_from_slice(&(((pos >> 2) as u32) | 1 << 31).to_le_bytes());
                out.write_at(pos, &(c.len() as u32).to_le_bytes());
                out.write_at(pos + 4, &c);
                pos += 4 + c.len() as u64;
            }
            None => {
                idx.extend_from_slice(&((pos >> 2) as u32).to_le_bytes());
                out.write_at(pos, &s);
                pos += 2048;
            }
        }
    }
    pos = pos.div_ceil(4) * 4;
    idx.extend_from_slice(&((pos >> 2) as u32).to_le_bytes());
    out.write_at(24, &idx);
    if out.len < pos {
        out.write_at(pos - 1, &[0]);
    }
    out
}
