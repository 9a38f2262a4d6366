//! Locates the Zstandard chunks of a file and decompresses them, as an oracle for TLA+ (which
//! walks the file by itself and only looks the result up by chunk offset).  Whatever cannot be
//! located or decompressed is left out; the specification then rejects the file.

const ZSTD: u64 = 5;

struct Msg(Vec<(u64, Val)>);

enum Val { Int(u64), Bytes(Vec<u8>) }

fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut r = 0u64;
    for k in 0..10 {
        let x = *b.get(*i)?;
        *i += 1;
        r |= ((x & 0x7f) as u64).checked_shl(7 * k)?;
        if x < 0x80 { return Some(r); }
    }
    None
}

fn parse(b: &[u8]) -> Option<Msg> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let key = varint(b, &mut i)?;
        let v = match key & 7 {
            0 => Val::Int(varint(b, &mut i)?),
            1 => { i += 8; if i > b.len() { return None; } Val::Bytes(b[i - 8..i].to_vec()) }
            2 => {
                let n = varint(b, &mut i)? as usize;
                let e = i.checked_add(n)?;
                if e > b.len() { return None; }
                let v = b[i..e].to_vec();
                i = e;
                Val::Bytes(v)
            }
            5 => { i += 4; if i > b.len() { return None; } Val::Bytes(b[i - 4..i].to_vec()) }
            _ => return None,
        };
        out.push((key >> 3, v));
    }
    Some(Msg(out))
}

impl Msg {
    fn int(&self, f: u64) -> u64 {
        self.0.iter().rev().find_map(|(k, v)| match v { Val::Int(x) if *k == f => Some(*x), _ => None }).unwrap_or(0)
    }
    fn msgs(&self, f: u64) -> Vec<Msg> {
        self.0.iter().filter_map(|(k, v)| match v { Val::Bytes(b) if *k == f => parse(b), _ => None }).collect()
    }
}

/// Walk the chunks of [lo, hi), record them, return the concatenated content.
fn section(file: &[u8], lo: u64, len: u64, out: &mut Vec<(usize, Vec<u8>)>) -> Option<Vec<u8>> {
    let (mut i, hi) = (lo as usize, lo.checked_add(len)? as usize);
    if hi > file.len() { return None; }
    let mut content = vec![];
    while i + 3 <= hi {
        let h = file[i] as usize | (file[i + 1] as usize) << 8 | (file[i + 2] as usize) << 16;
        let (n, orig) = (h >> 1, h & 1 == 1);
        if i + 3 + n > hi { return None; }
        let p = &file[i + 3..i + 3 + n];
        if orig {
            content.extend_from_slice(p);
        } else {
            let d = zstd::stream::decode_all(p).ok()?;
            content.extend_from_slice(&d);
            out.push((i, d));
        }
        i += 3 + n;
    }
    Some(content)
}

pub fn zstd_chunks(file: &[u8]) -> Vec<(usize, Vec<u8>)> {
    let mut out = vec![];
    walk(file, &mut out);
    out.sort_by_key(|x| x.0);
    out.dedup_by_key(|x| x.0);
    out
}

fn walk(file: &[u8], out: &mut Vec<(usize, Vec<u8>)>) -> Option<()> {
    let ps_len = *file.last()? as usize;
    let ps_start = file.len().checked_sub(1 + ps_len)?;
    let ps = parse(&file[ps_start..file.len() - 1])?;
    if ps.int(2) != ZSTD { return None; }
    let (flen, mlen) = (ps.int(1), ps.int(5));
    let fstart = (ps_start as u64).checked_sub(flen)?;
    let mstart = fstart.checked_sub(mlen)?;
    section(file, mstart, mlen, out);
    let footer = parse(&section(file, fstart, flen, out)?)?;
    for s in footer.msgs(3) {
        let (off, il, dl, sl) = (s.int(1), s.int(2), s.int(3), s.int(4));
        let sf = match section(file, off.wrapping_add(il).wrapping_add(dl), sl, out) { Some(x) => x, None => continue };
        let sf = match parse(&sf) { Some(x) => x, None => continue };
        let mut at = off;
        for st in sf.msgs(1) {
            let len = st.int(3);
            section(file, at, len, out);
            at = at.wrapping_add(len);
        }
    }
    Some(())
}

/// Where the stripe footers of a file lie, of which only the end is at hand (not for Zstandard).
pub fn stripe_footers(tail: &[u8], len: u64) -> Vec<(u64, u64)> {
    footers(tail, len).unwrap_or_default()
}

fn footers(tail: &[u8], len: u64) -> Option<Vec<(u64, u64)>> {
    let ps_len = *tail.last()? as usize;
    let ps_start = tail.len().checked_sub(1 + ps_len)?;
    let ps = parse(&tail[ps_start..tail.len() - 1])?;
    let foot = &tail[ps_start.checked_sub(ps.int(1) as usize)?..ps_start];
    let data = match ps.int(2) {
        0 => foot.to_vec(),
        2 => {
            let (mut i, mut out) = (0, vec![]);
            while i + 3 <= foot.len() {
                let h = foot[i] as usize | (foot[i + 1] as usize) << 8 | (foot[i + 2] as usize) << 16;
                let p = foot.get(i + 3..i + 3 + (h >> 1))?;
                if h & 1 == 1 { out.extend_from_slice(p) } else { out.extend(snap::Decoder::new().decompress_vec(p).ok()?) }
                i += 3 + (h >> 1);
            }
            out
        }
        _ => return None,
    };
    let mut out = vec![];
    for s in parse(&data)?.msgs(3) {
        let at = s.int(1).checked_add(s.int(2))?.checked_add(s.int(3))?;
        if at <= len && s.int(4) <= 1 << 20 { out.push((at, s.int(4))); }
    }
    Some(out)
}
