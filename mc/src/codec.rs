//! C03: validity bitmap RLE. C04: varints. C05: item length packing.

use crate::explore::*;
#[cfg(feature = "rle")]
use crate::store::verif::buffers::Bitmap;
use crate::store::verif::codec::*;
use crate::util::*;
use crate::{Check, Tier};

/// Reference LEB128 reader. None: runs past the end or does not fit 64 bits.
pub fn ref_varint(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        v |= ((*x & 0x7f) as u128) << (7 * i);
        if *x < 0x80 {
            return if v <= u64::MAX as u128 { Some((v as u64, i + 1)) } else { None };
        }
    }
    None
}

pub fn ref_put_varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// Reference decoder of the bitmap RLE stream to bytes.
pub fn ref_rle(enc: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut p = 0;
    while p < enc.len() {
        let (h, n) = ref_varint(&enc[p..]).ok_or("bad RLE header")?;
        p += n;
        let len = (h >> 1) as usize;
        if len == 0 {
            return Err("empty RLE frame".into());
        }
        if len > 1 << 26 {
            return Err(format!("RLE frame of {} bytes", len));
        }
        if h & 1 == 1 {
            if p + len > enc.len() {
                return Err("RLE literal runs past the end".into());
            }
            out.extend_from_slice(&enc[p..p + len]);
            p += len;
        } else {
            let v = *enc.get(p).ok_or("RLE run without value")?;
            out.extend(std::iter::repeat(v).take(len));
            p += 1;
        }
    }
    Ok(out)
}

/// Number of bytes `ref_rle` gives, without building them.
pub fn ref_rle_len(enc: &[u8]) -> Option<usize> {
    let (mut p, mut n) = (0, 0usize);
    while p < enc.len() {
        let (h, k) = ref_varint(&enc[p..])?;
        p += k;
        let len = (h >> 1) as usize;
        if len == 0 || len > 1 << 26 {
            return None;
        }
        p += if h & 1 == 1 { len } else { 1 };
        if p > enc.len() {
            return None;
        }
        n += len;
    }
    Some(n)
}

/// Size of the encoding that stores maximal runs of at least three equal bytes as runs.
fn ref_rle_size(bytes: &[u8]) -> usize {
    let vl = |n: usize| {
        let mut v = vec![];
        ref_put_varint((n as u64) << 1 | 1, &mut v);
        v.len()
    };
    let (mut size, mut lit, mut i) = (0, 0, 0);
    while i < bytes.len() {
        let mut j = i;
        while j < bytes.len() && bytes[j] == bytes[i] {
            j += 1;
        }
        if j - i >= 3 {
            if lit > 0 {
                size += vl(lit) + lit;
                lit = 0;
            }
            size += vl(j - i) + 1;
        } else {
            lit += j - i;
        }
        i = j;
    }
    if lit > 0 {
        size += vl(lit) + lit;
    }
    size
}

fn pack(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            v[i / 8] |= 1 << (i % 8);
        }
    }
    v
}

#[cfg(feature = "rle")]
/// The encoded stream must decode, with the reference decoder and with meerkat's own, to
/// exactly `bits`.
fn check_rle(enc: &[u8], bits: &[bool]) -> Result<(), String> {
    let want = pack(bits);
    let got = ref_rle(enc)?;
    diff("decoded bitmap bytes", &got, &want)?;
    let max = ref_rle_size(&want);
    if enc.len() > max {
        return Err(format!(
            "{} bytes encoded in {} bytes, run-length encoding needs {}",
            want.len(),
            enc.len(),
            max
        ));
    }
    let set: Vec<u32> = (0..bits.len()).filter(|i| bits[*i]).map(|i| i as u32).collect();
    own_decode(enc, &set)
}

#[cfg(feature = "rle")]
fn own_decode(enc: &[u8], set: &[u32]) -> Result<(), String> {
    // exactly enough room
    let mut out = vec![u32::MAX; set.len()];
    no_panic(|| rle_decode(enc, &mut out)).map_err(|e| format!("decode: {}", e))?;
    diff("positions of set bits", &out, set)?;
    // spare room stays untouched
    let mut out = vec![u32::MAX; set.len() + 9];
    no_panic(|| rle_decode(enc, &mut out)).map_err(|e| format!("decode: {}", e))?;
    diff("positions of set bits", &out[..set.len()], set)?;
    if out[set.len()..].iter().any(|x| *x != u32::MAX) {
        return Err("decode produced more set bits than were encoded".into());
    }
    Ok(())
}

#[cfg(feature = "rle")]
fn c03(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    // every bit string of every length up to n
    let n = tier.of(15, 20);
    out.push(Scenario::new("all-bit-strings", move |ctx| {
        let len = ctx.choose(n + 1);
        let mut e = RleEncoder::new();
        let mut bits = vec![];
        for _ in 0..len {
            let b = ctx.choose(2) == 1;
            e.put(b);
            bits.push(b);
        }
        e.flush();
        ctx.step(|| format!("{:?} -> {:?}", bits, e.encoded_values()));
        ctx.state(&bits);
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // every sequence of byte runs and a partial last byte
    let depth = tier.of(4, 5);
    let vals = [0u8, 0xff, 0x55, 0x01];
    let lens: &'static [usize] = tier.of(&[1, 2, 3, 4, 64], &[1, 2, 3, 4, 63, 64, 8191]);
    out.push(Scenario::new("byte-runs", move |ctx| {
        let mut e = RleEncoder::new();
        let mut bits: Vec<bool> = vec![];
        let d = ctx.choose(depth + 1);
        for _ in 0..d {
            // the longest sequences, of short runs
            let l = ctx.pick(if d > 4 { &lens[..4] } else { lens });
            let v = ctx.pick(&vals);
            ctx.step(|| format!("{} x {:#x}", l, v));
            for _ in 0..l {
                for k in 0..8 {
                    let b = v >> k & 1 == 1;
                    e.put(b);
                    bits.push(b);
                }
            }
        }
        let tail = ctx.pick(&[(0usize, 0u8), (1, 1), (7, 0x7f), (3, 0), (5, 0x15)]);
        for k in 0..tail.0 {
            let b = tail.1 >> k & 1 == 1;
            e.put(b);
            bits.push(b);
        }
        e.flush();
        ctx.note(|| format!("tail {:?} -> {} bytes", tail, e.encoded_values().len()));
        ctx.state(&bits);
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // every length of a run, and of a literal, after whatever
    let lens = sweep(tier.of(2100, 9000), tier.of(16, 20));
    out.push(Scenario::new("every-run-length", move |ctx| {
        let n = ctx.pick(&lens);
        let kind = ctx.choose(5);
        let before = ctx.choose(4);
        let tail = ctx.choose(2) * 3;
        let mut e = RleEncoder::new();
        let mut bits: Vec<bool> = vec![];
        let mut byte = |v: u8| {
            for k in 0..8 {
                let b = v >> k & 1 == 1;
                e.put(b);
                bits.push(b);
            }
        };
        [&[][..], &[0x33], &[0x33, 0x44, 0x55], &[7; 5]][before].iter().for_each(|v| byte(*v));
        for i in 0..n {
            byte([0, 0xff, 0x0f, (i % 251) as u8, [0xff, 0xff, 0][i % 3]][kind]);
        }
        byte(0x11);
        for i in 0..tail {
            e.put(i % 2 == 0);
            bits.push(i % 2 == 0);
        }
        e.flush();
        ctx.step(|| format!("{} bytes of kind {} after {} others", n, kind, before));
        ctx.state(&(n, kind, before, tail));
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // run and literal lengths around every varint size change
    out.push(Scenario::new("long-runs", move |ctx| {
        let lens = [62usize, 63, 64, 65, 127, 128, 129, 8190, 8191, 8192, 8193, 16383, 16384, 70000];
        let mut e = RleEncoder::new();
        let mut bits: Vec<bool> = vec![];
        for _ in 0..2 {
            let l = ctx.pick(&lens);
            let kind = ctx.choose(4);
            ctx.step(|| format!("{} bytes of kind {}", l, kind));
            for i in 0..l {
                let v = match kind {
                    0 => 0u8,
                    1 => 0xff,
                    2 => 0x0f,
                    _ => (i % 251) as u8, // literal
                };
                for k in 0..8 {
                    let b = v >> k & 1 == 1;
                    e.put(b);
                    bits.push(b);
                }
            }
        }
        e.flush();
        ctx.state(&bits.len());
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // reuse: whatever was encoded before clear() (flushed or not) leaves no trace
    let rd = tier.of(3, 4);
    out.push(Scenario::new("reuse", move |ctx| {
        let mut e = RleEncoder::new();
        for round in 0..3 {
            let mut bits: Vec<bool> = vec![];
            let d = ctx.choose(rd);
            for _ in 0..d {
                let (v, l) = ctx.pick(&[(0xffu8, 1usize), (0xff, 2), (0xff, 3), (0, 4), (0x5a, 1)]);
                ctx.step(|| format!("{} x {:#x}", l, v));
                for _ in 0..l {
                    for k in 0..8 {
                        let b = v >> k & 1 == 1;
                        e.put(b);
                        bits.push(b);
                    }
                }
            }
            let tail = ctx.pick(&[0usize, 3]);
            for _ in 0..tail {
                e.put(true);
                bits.push(true);
            }
            let flush = round == 2 || ctx.choose(2) == 0;
            if flush {
                e.flush();
                check_rle(e.encoded_values(), &bits)
                    .map_err(|m| format!("round {}: {}", round, m))?;
            }
            ctx.note(|| format!("tail {} flush {}", tail, flush));
            ctx.state(&(round, &bits, flush));
            ctx.outcome(&bits);
            e.clear();
        }
        Ok(())
    }));
    // an encoder used very many times
    out.push(Scenario::new("many-lives", move |ctx| {
        let n = ctx.pick(tier.of(&[300usize, 70_000], &[300, 5000, 70_000, 300_000]));
        let shape = ctx.choose(4);
        let flushed = ctx.choose(2) == 0;
        ctx.step(|| format!("{} lives of shape {}, earlier ones flushed: {}", n, shape, flushed));
        ctx.state(&(n, shape, flushed));
        let mut e = RleEncoder::new();
        let mut bits: Vec<bool> = vec![];
        for i in 0..n {
            bits.clear();
            let len = [i % 3, 8 + i % 9, 24 * (i % 2), 65][shape];
            bits.extend((0..len).map(|k| (i >> (k % 3)) % 5 < 3 || k % 7 == i % 7));
            bits.iter().for_each(|b| e.put(*b));
            if flushed || i + 1 == n {
                e.flush();
                check_rle(e.encoded_values(), &bits).map_err(|m| format!("life {}: {}", i, m))?;
            }
            if i + 1 < n {
                e.clear();
            }
        }
        ctx.steps(n as u64);
        ctx.outcome(e.encoded_values());
        Ok(())
    }));
    // put_from: every bitmap, every start, every number of values, after every alignment
    let n2 = tier.of(9, 12);
    out.push(Scenario::new("put-from", move |ctx| {
        let mut src = Bitmap::new();
        let mut m = vec![];
        for _ in 0..n2 {
            let b = ctx.choose(2) == 0;
            src.append(b);
            m.push(b);
        }
        let start = ctx.choose(n2 + 1);
        let avail = m[start..].iter().filter(|b| **b).count();
        let k = ctx.choose(avail + 1);
        let pre = ctx.pick(&[0usize, 1, 7, 8]);
        let mut e = RleEncoder::new();
        let mut bits = vec![];
        for i in 0..pre {
            e.put(i % 2 == 0);
            bits.push(i % 2 == 0);
        }
        let ret = e.put_from(&src, start, k);
        let (mut i, mut seen) = (start, 0);
        while seen < k {
            seen += m[i] as usize;
            bits.push(m[i]);
            i += 1;
        }
        ctx.step(|| format!("put_from({:?}, {}, {}) after {} bits -> {}", m, start, k, pre, ret));
        eq("position returned by put_from", ret, i)?;
        e.flush();
        ctx.state(&(&m, start, k, pre));
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // bitmaps made of runs around word boundaries, bit by bit and from every kind of start
    let lens: &'static [usize] = tier.of(&RUN_LENS, &MORE_RUN_LENS);
    let segs = tier.of(4, 4);
    out.push(Scenario::new("bit-runs", move |ctx| {
        let runs = pick_runs(ctx, segs, 2, lens);
        let mut src = Bitmap::new();
        let mut m = vec![];
        for (k, n) in &runs {
            for _ in 0..*n {
                src.append(*k == 0);
                m.push(*k == 0);
            }
        }
        let first = runs[0].1;
        let start = ctx.pick(&[0, 1, 8, first, first + 1]).min(m.len());
        let avail = m[start..].iter().filter(|b| **b).count();
        let k = ctx.pick(&[avail, avail.saturating_sub(1), avail / 2]);
        let mut e = RleEncoder::new();
        let mut bits = vec![];
        for _ in 0..ctx.pick(&[0usize, 3]) {
            e.put(true);
            bits.push(true);
        }
        let ret = e.put_from(&src, start, k);
        let (mut i, mut seen) = (start, 0);
        while seen < k {
            seen += m[i] as usize;
            bits.push(m[i]);
            i += 1;
        }
        // and the rest of the bitmap one by one
        for b in &m[i..] {
            e.put(*b);
            bits.push(*b);
        }
        ctx.step(|| format!("runs {:?}: put_from({}, {}) -> {}", runs, start, k, ret));
        eq("position returned by put_from", ret, i)?;
        e.flush();
        ctx.state(&(&runs, start, k, bits.len()));
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // frames of megabytes, and very many frames
    out.push(Scenario::new("giant-streams", move |ctx| {
        let kind = ctx.choose(5);
        let n = ctx.pick(&[(1usize << 18) + 1, (1 << 20) + 5, (1 << 21) + 1]);
        let mut e = RleEncoder::new();
        let mut bits: Vec<bool> = Vec::with_capacity(n * 8 + 11);
        for i in 0..n {
            let v = match kind {
                0 => 0u8,
                1 => 0xff,
                2 => 0x0f,
                3 => (i % 251) as u8, // literal
                _ => if i % 5 < 4 { 0x11 } else { (i % 7) as u8 }, // runs and literals in turn
            };
            for k in 0..8 {
                let b = v >> k & 1 == 1;
                e.put(b);
                bits.push(b);
            }
        }
        for k in 0..11 {
            e.put(k % 2 == 0);
            bits.push(k % 2 == 0);
        }
        e.flush();
        ctx.step(|| format!("{} bytes of kind {}", n, kind));
        ctx.state(&(n, kind));
        ctx.outcome(e.encoded_values());
        check_rle(e.encoded_values(), &bits)
    }));
    // large bitmaps copied in spans, as the column encoders do
    out.push(Scenario::new("put-from-bulk", move |ctx| {
        let n = ctx.pick(&[64usize, 1000, 8192, 8200, 70001]);
        let p = ctx.choose(6) as u8;
        let span = ctx.pick(&[1usize, 7, 100, 8192, 100000]);
        let mut src = Bitmap::new();
        let mut m = vec![];
        for i in 0..n {
            src.append(pattern_valid(p, i));
            m.push(pattern_valid(p, i));
        }
        ctx.state(&(n, p, span));
        let mut left = m.iter().filter(|b| **b).count();
        let mut pos = 0;
        let mut e = RleEncoder::new();
        while left > 0 {
            let k = span.min(left);
            e.clear();
            let ret = e.put_from(&src, pos, k);
            e.flush();
            ctx.steps(1);
            let (mut i, mut seen) = (pos, 0);
            while seen < k {
                seen += m[i] as usize;
                i += 1;
            }
            eq("position returned by put_from", ret, i)?;
            check_rle(e.encoded_values(), &m[pos..i])?;
            pos = i;
            left -= k;
        }
        ctx.step(|| format!("{} bits pattern {} in spans of {}", n, p, span));
        Ok(())
    }));
    // the decoder on every well-formed stream of up to d frames (not only streams the
    // encoder happens to choose)
    let fd = tier.of(4, 5);
    out.push(Scenario::new("decoder-all-streams", move |ctx| {
        let d = ctx.choose(fd + 1);
        let mut enc = vec![];
        let mut bytes = vec![];
        for _ in 0..d {
            if ctx.choose(2) == 0 {
                let l = ctx.pick(&[1usize, 2, 3, 70]);
                let v = ctx.pick(&[0u8, 0xff, 0x81]);
                ref_put_varint((l as u64) << 1, &mut enc);
                enc.push(v);
                bytes.extend(std::iter::repeat(v).take(l));
            } else {
                let l = ctx.pick(&[1usize, 2, 65]);
                let b = make_bytes(d as u32, l);
                ref_put_varint((l as u64) << 1 | 1, &mut enc);
                enc.extend_from_slice(&b);
                bytes.extend_from_slice(&b);
            }
        }
        ctx.step(|| format!("stream {:?}", enc));
        ctx.state(&enc);
        let set: Vec<u32> = (0..bytes.len() * 8)
            .filter(|i| bytes[i / 8] >> (i % 8) & 1 == 1)
            .map(|i| i as u32)
            .collect();
        ctx.outcome(&set);
        own_decode(&enc, &set)
    }));
    out
}

// ---------------------------------------------------------------- C04

#[cfg(feature = "varint")]
fn varint_value(v: u64) -> Result<(), String> {
    let mut want = vec![];
    ref_put_varint(v, &mut want);
    let mut buf = [0xEEu8; 12];
    let n = encode_varint(v, &mut buf);
    if n != want.len() || buf[..n] != want[..] {
        return Err(format!("encode_varint({}) wrote {:?} instead of {:?}", v, &buf[..n.min(12)], want));
    }
    if buf[n..].iter().any(|b| *b != 0xEE) {
        return Err(format!("encode_varint({}) wrote beyond its encoding", v));
    }
    let l = encoded_len_varint(v);
    if l != n {
        return Err(format!("encoded_len_varint({}) is {} but encode_varint wrote {}", v, l, n));
    }
    match decode_varint(&want) {
        Ok((d, k)) if d == v && k == n => {}
        r => return Err(format!("decode of the encoding of {} gave {:?}", v, r)),
    }
    let mut dst = vec![9u8, 0xff];
    dst.put_varint(v);
    let mut w2 = vec![9u8, 0xff];
    w2.extend_from_slice(&want);
    if dst != w2 {
        return Err(format!("put_varint({}) appended {:?}", v, &dst[2..]));
    }
    // with room for more than the encoding in the output, exactly that, and less
    for room in [n - 1, n, 10, 11, 64] {
        let mut dst: Vec<u8> = Vec::with_capacity(2 + room);
        dst.extend_from_slice(&w2[..2]);
        dst.put_varint(v);
        dst.put_varint(v ^ 1);
        if dst.len() < w2.len() || dst[..w2.len()] != w2[..] {
            return Err(format!("put_varint({}) with room for {} bytes appended {:?}", v, room, &dst[2..]));
        }
        match decode_varint(&dst[w2.len()..]) {
            Ok((d, k)) if d == v ^ 1 && w2.len() + k == dst.len() => {}
            r => return Err(format!("put_varint({}) after {} with room for {} bytes: {:?} decodes to {:?}", v ^ 1, v, room, &dst[2..], r)),
        }
    }
    // followed by more data
    for t in [0u8, 0x7f, 0x80, 0xff] {
        w2.push(t);
        match decode_varint(&w2[2..]) {
            Ok((d, k)) if d == v && k == n => {}
            r => return Err(format!("decode of {} followed by {:#x} gave {:?}", v, t, r)),
        }
    }
    // followed by much more data of one kind
    let mut long = [0u8; 32];
    long[..n].copy_from_slice(&want);
    for t in [0u8, 0x7f, 0x80, 0xff, 0x55] {
        long[n..].fill(t);
        match decode_varint(&long) {
            Ok((d, k)) if d == v && k == n => {}
            r => return Err(format!("decode of {} followed by many {:#x} gave {:?}", v, t, r)),
        }
    }
    Ok(())
}

#[cfg(feature = "varint")]
fn c04(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    // every value below 2^k
    let (hi, lo) = (tier.of(12, 14), tier.of(10u64, 14));
    out.push(Scenario::new("all-small-values", move |ctx| {
        let mut page = 0u64;
        for _ in 0..hi {
            page = page * 2 + ctx.choose(2) as u64;
        }
        for x in 0..1u64 << lo {
            varint_value(page << lo | x)?;
        }
        ctx.steps(1 << lo);
        ctx.note(|| format!("values {}..{}", page << lo, (page + 1) << lo));
        ctx.state(&page);
        Ok(())
    }));
    // every window around every power of two, and its complement
    out.push(Scenario::new("around-powers-of-two", move |ctx| {
        let k = ctx.choose(65);
        let base = if k == 64 { 0 } else { 1u64 << k };
        let r = 4096u64;
        let neg = ctx.choose(2) == 1;
        for d in 0..2 * r {
            let v = base.wrapping_add(d).wrapping_sub(r);
            varint_value(if neg { !v } else { v })?;
        }
        ctx.steps(2 * r);
        ctx.note(|| format!("2^{} +- {} complement={}", k, r, neg));
        ctx.state(&(k, neg));
        Ok(())
    }));
    // every value with each 7-bit group from a small alphabet
    let groups: &'static [u64] = tier.of(&[0, 1, 0x40], &[0, 1, 0x40, 0x7f]);
    out.push(Scenario::new("group-combinations", move |ctx| {
        let mut v: u64 = 0;
        for i in 0..10 {
            let g = if i == 9 { ctx.choose(2) as u64 } else { ctx.pick(groups) };
            v |= g << (7 * i);
        }
        ctx.step(|| format!("{:#x}", v));
        ctx.outcome(&v);
        ctx.state(&v);
        varint_value(v)
    }));
    // the decoder on every byte string of 1..=10 bytes over representative bytes
    let cont: &'static [u8] = tier.of(&[0x80, 0x81, 0xff], &[0x80, 0x81, 0xc0, 0xff]);
    out.push(Scenario::new("decoder-all-strings", move |ctx| {
        let len = 1 + ctx.choose(10);
        let mut b = vec![];
        for _ in 1..len {
            b.push(ctx.pick(cont));
        }
        b.push(ctx.pick(&[0u8, 1, 0x3f, 0x7f]));
        let trail = ctx.pick(&[0usize, 1, 14]);
        for i in 0..trail {
            b.push([0x85, 0x7a, 0xff][i % 3]);
        }
        ctx.step(|| format!("{:02x?}", b));
        ctx.state(&b);
        if let Some((v, n)) = ref_varint(&b) {
            ctx.outcome(&v);
            match decode_varint(&b) {
                Ok((d, k)) if d == v && k == n => Ok(()),
                r => Err(format!("decode_varint({:02x?}) is {:?} instead of ({}, {})", b, r, v, n)),
            }
        } else {
            Ok(()) // more than 64 bits: unspecified
        }
    }));
    // an encoding cut short never yields a value (an error or a refused read are both fine)
    out.push(Scenario::new("decoder-truncated", move |ctx| {
        let len = ctx.choose(10);
        let mut b = vec![];
        for _ in 0..len {
            b.push(ctx.pick(cont));
        }
        ctx.step(|| format!("{:02x?}", b));
        ctx.state(&b);
        match no_panic(|| decode_varint(&b).map_err(|e| e.to_string())) {
            Ok(Ok(r)) => Err(format!("decode_varint({:02x?}) is {:?} although the input is incomplete", b, r)),
            _ => Ok(()),
        }
    }));
    // ten continuation bytes are never accepted
    out.push(Scenario::new("decoder-overlong", move |ctx| {
        let mut b = vec![];
        for _ in 0..10 {
            b.push(ctx.pick(&[0x80u8, 0xff, 0x81]));
        }
        b.push(ctx.pick(&[0u8, 0x80]));
        ctx.step(|| format!("{:02x?}", b));
        ctx.state(&b);
        match decode_varint(&b) {
            Err(_) => Ok(()),
            Ok(r) => Err(format!("decode_varint({:02x?}) accepted as {:?}", b, r)),
        }
    }));
    out
}

// ---------------------------------------------------------------- C05

/// Length in bytes of `n` values packed with `bits` bits: chunks of 128 values in four
/// interleaved lanes of 32 bit words, the last chunk without its unused trailing words.
pub fn packed_len(n: usize, bits: usize) -> usize {
    let (full, rest) = (n / 128, n % 128);
    full * 16 * bits + 16 * (((rest + 3) / 4 * bits + 31) / 32)
}

/// Reference reader for `n` packed values.
pub fn ref_unpack(p: &[u8], n: usize, bits: usize) -> Result<Vec<u32>, String> {
    if bits > 32 {
        return Err(format!("{} bits per value", bits));
    }
    if p.len() < packed_len(n, bits) {
        return Err(format!(
            "{} bytes hold {} values of {} bits, {} needed",
            p.len(),
            n,
            bits,
            packed_len(n, bits)
        ));
    }
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        let (chunk, k) = (i / 128, i % 128);
        let (lane, row) = (k % 4, k / 4);
        let base = chunk * 16 * bits;
        let mut v: u64 = 0;
        if bits > 0 {
            let bit = row * bits;
            for w in 0..2 {
                let word = bit / 32 + w;
                let off = base + (word * 4 + lane) * 4;
                if w == 1 && (bit % 32) + bits <= 32 {
                    break;
                }
                let x = u32::from_le_bytes([p[off], p[off + 1], p[off + 2], p[off + 3]]) as u64;
                v |= x << (32 * w);
            }
            v >>= bit % 32;
            v &= (1u64 << bits) - 1;
        }
        out.push(v as u32);
    }
    Ok(out)
}

#[cfg(feature = "offsets")]
/// The exact corruption bitpacking 0.5.1 causes at 32 bits per value: the first row of four
/// values of every chunk is dropped and the others move up.
fn lost_first_row(got: &[u32], src: &[u32]) -> bool {
    got.chunks(128).zip(src.chunks(128)).all(|(g, s)| {
        let mut want = s.to_vec();
        want.resize(132, 0);
        (0..g.len()).all(|i| i >= 124 || g[i] == want[i + 4])
    })
}

#[cfg(feature = "offsets")]
fn offsets_case(
    ctx: &mut Ctx,
    enc: &mut OffsetEncoder,
    src: &[u32],
    prefix: &[u8],
) -> Result<(), String> {
    let mut dst = prefix.to_vec();
    let mut s = src.to_vec();
    ctx.step(|| {
        format!(
            "{} items, max {}, after {} bytes",
            src.len(),
            src.iter().max().unwrap_or(&0),
            prefix.len()
        )
    });
    no_panic(|| enc.encode(&mut s, &mut dst)).map_err(|e| {
        format!("encoding {} item lengths: {}", src.len(), e)
    })?;
    if dst.len() <= prefix.len() || dst[..prefix.len()] != *prefix {
        return Err("existing bytes were overwritten".into());
    }
    let bits = dst[prefix.len()] as usize;
    let body = &dst[prefix.len() + 1..];
    let got = ref_unpack(body, src.len(), bits)?;
    if bits == 32 && got != src && is_known("width32") && lost_first_row(&got, src) {
        ctx.known(
            "width32",
            "lists containing an item of 2 GiB or more lose the first four lengths of every 128".into(),
        );
    } else {
        diff("unpacked item lengths", &got, src)?;
    }
    eq("packed length", body.len(), packed_len(src.len(), bits))?;
    let max = src.iter().max().copied().unwrap_or(0);
    let want_bits = 32 - max.leading_zeros() as usize;
    if bits > want_bits {
        return Err(format!("{} bits per value where {} suffice", bits, want_bits));
    }
    ctx.outcome(&dst);
    Ok(())
}

#[cfg(feature = "offsets")]
fn c05(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let n = tier.of(5, 6);
    out.push(Scenario::new("all-short-lists", move |ctx| {
        let len = ctx.choose(n + 1);
        let src: Vec<u32> = (0..len)
            .map(|_| ctx.pick(&[0u32, 1, 2, 7, 255, 256, 1 << 20, u32::MAX]))
            .collect();
        ctx.state(&src);
        let mut e = OffsetEncoder::new();
        offsets_case(ctx, &mut e, &src, &[1, 2, 3])
    }));
    // every length up to n, every bit width, several placements of the large values
    let top = tier.of(400usize, 1100);
    out.push(Scenario::new("all-lengths-and-widths", move |ctx| {
        let len = ctx.choose(top + 1);
        let bits = ctx.choose(33);
        let pat = ctx.choose(7);
        let max = if bits == 0 { 0 } else { u32::MAX >> (32 - bits) };
        let top_bit = if bits == 0 { 0 } else { 1u32 << (bits - 1) };
        let src: Vec<u32> = (0..len)
            .map(|i| match pat {
                0 => max,
                1 => (i + 1 == len) as u32 * max,
                2 => (i == 0) as u32 * max,
                3 => (i as u32).wrapping_mul(0x9E37_79B9) & max | if i == len / 2 { top_bit } else { 0 },
                4 => if i % 2 == 0 { top_bit } else { max },
                5 => (i % 128 == 127) as u32 * max,
                _ => if i >= 128 { max } else { 0 },
            })
            .collect();
        ctx.state(&(len, bits, pat));
        let mut e = OffsetEncoder::new();
        offsets_case(ctx, &mut e, &src, &[])
    }));
    let lens = sweep(tier.of(2100, 9000), tier.of(16, 20));
    out.push(Scenario::new("every-length", move |ctx| {
        let len = ctx.pick(&lens);
        let bits = ctx.pick(&[0u32, 1, 7, 8, 13, 20, 31]);
        let max = if bits == 0 { 0 } else { u32::MAX >> (32 - bits) };
        let odd = ctx.choose(3);
        let src: Vec<u32> = (0..len)
            .map(|i| match odd {
                0 => (i as u32).wrapping_mul(0x9E37_79B9) & max,
                1 => if i + 1 == len { max } else { i as u32 & max & 3 },
                _ => if i == len / 2 { max } else { (i % 2) as u32 & max },
            })
            .collect();
        ctx.state(&(len, bits, odd));
        let mut e = OffsetEncoder::new();
        offsets_case(ctx, &mut e, &src, &[3])
    }));
    // encoder reuse: earlier lists leave no trace
    out.push(Scenario::new("reuse", move |ctx| {
        let mut e = OffsetEncoder::new();
        for _ in 0..3 {
            let (len, bits) = (ctx.pick(&[0usize, 1, 5, 128, 129, 256, 300]), ctx.pick(&[0u32, 1, 9, 32]));
            let max = if bits == 0 { 0 } else { u32::MAX >> (32 - bits) };
            let src: Vec<u32> = (0..len).map(|i| if i % 3 == 0 { max } else { max / 3 }).collect();
            ctx.state(&(len, bits));
            offsets_case(ctx, &mut e, &src, &[7; 5])?;
        }
        Ok(())
    }));
    // an encoder used very many times, for short and longer lists
    out.push(Scenario::new("many-lives", move |ctx| {
        let n = ctx.pick(tier.of(&[300usize, 70_000], &[300, 5000, 70_000, 300_000]));
        let shape = ctx.choose(3);
        ctx.state(&(n, shape));
        let mut e = OffsetEncoder::new();
        for i in 0..n {
            let len = [i % 5, 120 + i % 12, (i % 2) * 129][shape];
            let max = u32::MAX >> (1 + i % 31);
            let src: Vec<u32> = (0..len).map(|k| (k as u32 + i as u32).wrapping_mul(0x85EB_CA6B) & max).collect();
            offsets_case(ctx, &mut e, &src, &[7; 5]).map_err(|m| format!("life {}: {}", i, m))?;
        }
        Ok(())
    }));
    out.push(Scenario::new("large-lists", move |ctx| {
        let len = ctx.pick(&[1023usize, 1024, 1025, 4096, 10007, 65536, 131072 + 3]);
        let bits = ctx.pick(&[0u32, 1, 2, 3, 7, 8, 13, 31, 32]);
        let max = if bits == 0 { 0 } else { u32::MAX >> (32 - bits) };
        let src: Vec<u32> = (0..len).map(|i| (i as u32).wrapping_mul(0x85EB_CA6B) & max).collect();
        ctx.state(&(len, bits));
        let mut e = OffsetEncoder::new();
        offsets_case(ctx, &mut e, &src, &[])
    }));
    // lists whose packed form takes megabytes, the largest item anywhere
    out.push(Scenario::new("giant-lists", move |ctx| {
        let len = ctx.pick(&[131_072usize, 300_001, 1_100_000]);
        let bits = ctx.pick(&[1u32, 8, 21, 31]);
        let max = u32::MAX >> (32 - bits);
        let place = ctx.pick(&[0, 1, len / 2, len - 5, len - 1]);
        let dense = ctx.choose(2) == 1;
        let src: Vec<u32> = (0..len)
            .map(|i| if i == place { max } else if dense { (i as u32).wrapping_mul(0x85EB_CA6B) & max } else { 0 })
            .collect();
        ctx.state(&(len, bits, place, dense));
        let mut e = OffsetEncoder::new();
        offsets_case(ctx, &mut e, &src, &[])
    }));
    out
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    match id {
        #[cfg(feature = "rle")]
        "C03" => Some(Check {
            id: "C03",
            level: "model_checking",
            rule: "every bit history up to the bound (bit by bit, by byte runs around every frame-length boundary, through put_from from every bitmap/start/count) with every placement of flush and clear; the produced stream is decoded by an independent decoder and by meerkat's decoder and compared bit for bit; the size is compared with the run-length optimum",
            assumptions: vec!["flush() is called once before encoded_values() is read, clear() before the encoder is reused, as the column encoders do"],
            scenarios: c03(tier),
        }),
        #[cfg(feature = "varint")]
        "C04" => Some(Check {
            id: "C04",
            level: "model_checking",
            rule: "every value below 2^22 (2^28 thorough), windows of 8192 around every power of two and its complement, every combination of representative 7-bit groups, and every byte string of up to 10 representative bytes for the decoder; oracle: independent LEB128 in 128-bit arithmetic",
            assumptions: vec!["the decoder is given a buffer containing a complete varint (its documented precondition)", "encodings of values above 64 bits are unspecified"],
            scenarios: c04(tier),
        }),
        #[cfg(feature = "offsets")]
        "C05" => Some(Check {
            id: "C05",
            level: "model_checking",
            rule: "every list of up to 5-6 lengths over an alphabet, every list length up to 400 (1100 thorough) x every bit width 0..32 x placements of the large values, encoder reuse histories, large lists; unpacked by an independent bit-level reader",
            assumptions: vec!["item lengths fit 32 bits"],
            scenarios: c05(tier),
        }),
        _ => None,
    }
}
