use std::collections::HashSet;
use std::sync::OnceLock;

static KNOWN_KEYS: OnceLock<HashSet<String>> = OnceLock::new();

/// Lines of the known-findings file: `known: property=<id> key=<key> <what fails>`.
pub fn load_known(id: &str, path: &str) {
    let mut keys = HashSet::new();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let mut w = l.split_whitespace();
            if w.next() != Some("known:") {
                continue;
            }
            if w.next() != Some(&format!("property={}", id)) {
                continue;
            }
            if let Some(k) = w.next().and_then(|k| k.strip_prefix("key=")) {
                keys.insert(k.to_string());
            }
        }
    }
    KNOWN_KEYS.set(keys).ok();
}

pub fn is_known(key: &str) -> bool {
    KNOWN_KEYS.get().map_or(false, |k| k.contains(key))
}

pub fn scratch_root() -> String {
    let d = std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    std::fs::create_dir_all(&d).ok();
    d
}

/// Every number up to `dense`, and those around each power of two up to 2^top.
pub fn sweep(dense: usize, top: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    for k in 1..=top {
        v.extend((1usize << k).saturating_sub(2)..=(1usize << k) + 2);
    }
    v.retain(|n| *n <= (1 << top) + 2);
    v.sort();
    v.dedup();
    v
}

/// First difference between two slices, for messages.
pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!(
            "{}: {} items instead of {}",
            what,
            got.len(),
            want.len()
        ));
    }
    let i = (0..got.len()).find(|&i| got[i] != want[i]).unwrap();
    Err(format!(
        "{}: item {} is {:?} instead of {:?}",
        what, i, got[i], want[i]
    ))
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}

/// Codes from here on stand for values somebody could treat differently.
pub const SPECIAL: u32 = 0xFFFF_FF00;
pub const SPECIALS: u32 = 12;

/// Byte string number `code` of length `len`.
pub fn make_bytes(code: u32, len: usize) -> Vec<u8> {
    let fill = |start: &[u8], with: u8, end: &[u8]| {
        let mut v = vec![with; len];
        let n = start.len().min(len);
        v[..n].copy_from_slice(&start[..n]);
        let m = end.len().min(len - n);
        v[len - m..].copy_from_slice(&end[end.len() - m..]);
        v
    };
    match code.checked_sub(SPECIAL) {
        None => {}
        Some(0) => return fill(&[], 0, &[]),
        Some(1) => return fill(&[], 0xFF, &[]),
        Some(2) => return fill(b"MEERKAT_DATA1", b'x', b"MEERKAT_IDX1"),
        Some(3) => return fill(b" \t", b'a', b" \r\n"),
        Some(4) => return fill(b"\0", b'a', b"\0\0"),
        Some(5) => return fill(b"\xEF\xBB\xBF", b'A', b"\xC3"),
        Some(6) => return fill(b"null", b' ', b""),
        Some(7) => return fill(&[0x80], 0x80, &[0x01]),
        Some(8) => return fill(&[], b'\n', &[]),
        Some(9) => return fill(&[0xFF, 0xFE], 0xD8, &[0x00]),
        Some(10) => return (0..len).map(|i| i as u8).collect(),
        Some(_) => return fill(b"AbC", b'Z', b"z"),
    }
    let m = mix(code);
    (0..len)
        .map(|i| ((m >> ((i % 7) * 8)) as u8) ^ (i as u8).wrapping_mul(31) ^ ((i >> 8) as u8))
        .collect()
}

pub fn pattern_valid(p: u8, i: usize) -> bool {
    match p {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        3 => i % 3 != 2,
        4 => i > 0,
        _ => i % 8 == 5,
    }
}

pub fn mix(code: u32) -> u64 {
    (code as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((code as u64) << 40)
}

/// Lengths around byte, word and chunk boundaries.
pub const RUN_LENS: [usize; 8] = [1, 8, 31, 32, 33, 64, 65, 300];
pub const MORE_RUN_LENS: [usize; 16] = [1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 128, 129, 256, 1025];

/// Up to `n` runs of rows: (kind, length) with kinds below `kinds`, neighbours of different kinds.
pub fn pick_runs(ctx: &mut crate::explore::Ctx, n: usize, kinds: usize, lens: &[usize]) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    for _ in 0..1 + ctx.choose(n) {
        let k = match v.last() {
            None => ctx.choose(kinds),
            Some((last, _)) if kinds > 1 => (last + 1 + ctx.choose(kinds - 1)) % kinds,
            Some(_) => 0,
        };
        v.push((k, ctx.pick(lens)));
    }
    v
}

/// Every error the kernel can answer with; an interrupted call is repeated, so EINTR is apart.
pub fn every_errno() -> Vec<i32> {
    (1..=133).filter(|e| *e != libc::EINTR && ![41, 58].contains(e)).collect()
}
