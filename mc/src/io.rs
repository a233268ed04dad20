//! C12..C15: block writer and block reader over real files, with every file system call
//! passing through the interposed shim.

use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use futures::{Stream, StreamExt};
use libc::{EINTR, EIO, ENOSPC};

use crate::explore::*;
use crate::rt::*;
use crate::shim::*;
use crate::store::verif::io::*;
use crate::util::*;
use crate::{Check, Tier};

/// File content used everywhere: never zero, so a buffer that was not filled shows.
pub fn byte(i: u64) -> u8 {
    ((i.wrapping_mul(131) ^ (i >> 7).wrapping_mul(37)) % 251 + 1) as u8
}
pub fn bytes(from: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| byte(from + i)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    /// a block of that many different bytes
    Write(usize),
    /// a block of that many equal bytes
    Same(u8, usize),
    Flush,
    Sync,
}

struct Ran {
    /// result of every operation executed (stops at the first error)
    ok: Vec<bool>,
    err: Option<String>,
    /// bytes written before each successful Flush / Sync, and the file content at that time
    seen: Vec<(Op, usize, Vec<u8>)>,
    log: Vec<Event>,
    counts: Vec<(String, Call, usize)>,
    hits: usize,
    written: usize,
    /// the bytes written
    want: Vec<u8>,
}

/// Executes one block writer life in a fresh directory, with the given faults.
fn life(ctx: &Ctx, ops: &[Op], stale: usize, faults: Vec<Fault>) -> Result<Ran, String> {
    life_on(ctx, ops, stale, faults, 0)
}

/// `slow`: microseconds every write takes.
fn life_on(ctx: &Ctx, ops: &[Op], stale: usize, faults: Vec<Fault>, slow: u64) -> Result<Ran, String> {
    let d = Dir::new(ctx, "bw");
    if slow > 0 {
        d.s.st.lock().unwrap().slow = vec![("", slow)];
    }
    let path = d.file("f");
    if stale > 0 {
        raw_write(&path, &vec![0xEE; stale]);
    }
    d.s.st.lock().unwrap().faults = faults;
    let mut r = Ran {
        ok: vec![],
        err: None,
        seen: vec![],
        log: vec![],
        counts: vec![],
        hits: 0,
        written: 0,
        want: vec![],
    };
    no_panic(|| {
        block_on(async {
            let mut w = match Writer::new(&path).await {
                Ok(w) => w,
                Err(e) => {
                    r.err = Some(format!("create: {}", e));
                    return Ok(());
                }
            };
            eq("position of a new writer", w.pos(), 0)?;
            for op in ops {
                let res = match op {
                    Op::Write(_) | Op::Same(..) => {
                        let b = match op {
                            Op::Write(n) => bytes(r.written as u64, *n),
                            Op::Same(v, n) => vec![*v; *n],
                            _ => unreachable!(),
                        };
                        let res = w.write_block(&b).await;
                        if res.is_ok() {
                            r.written += b.len();
                            r.want.extend_from_slice(&b);
                        }
                        res
                    }
                    Op::Flush => w.flush().await,
                    Op::Sync => w.sync().await,
                };
                match res {
                    Ok(()) => {
                        r.ok.push(true);
                        eq("position", w.pos(), r.written as u64)?;
                        if matches!(op, Op::Flush | Op::Sync) {
                            d.s.mark(if *op == Op::Sync { "sync" } else { "flush" });
                            r.seen.push((*op, r.written, d.content("f")?));
                        }
                    }
                    Err(e) => {
                        r.ok.push(false);
                        r.err = Some(format!("{:?}: {}", op, e));
                        break;
                    }
                }
            }
            Ok::<(), String>(())
        })
    })??;
    r.hits = d.s.hits();
    r.counts = d.s.counts();
    r.log = d.s.take_log();
    Ok(r)
}

fn check_seen(r: &Ran) -> Result<(), String> {
    for (op, n, got) in &r.seen {
        diff(&format!("file bytes after a successful {:?}", op), got, &r.want[..*n])?;
    }
    Ok(())
}

fn pick_ops(ctx: &mut Ctx, alphabet: &[Op], depth: usize) -> Vec<Op> {
    (0..depth).map(|_| ctx.pick(alphabet)).collect()
}

/// Chooses one call made by the clean run and something to happen to it.
fn pick_fault(
    ctx: &mut Ctx,
    counts: &[(String, Call, usize)],
    acts: impl Fn(Call) -> Vec<Act>,
) -> Option<Fault> {
    let all: Vec<Fault> = counts
        .iter()
        .flat_map(|(file, call, n)| {
            let acts = acts(*call);
            (0..*n).flat_map(move |nth| {
                let (file, call) = (file.clone(), *call);
                acts.clone().into_iter().map(move |act| Fault {
                    file: file.clone(),
                    call,
                    nth,
                    act,
                })
            })
        })
        .collect();
    if all.is_empty() {
        return None;
    }
    Some(ctx.pick(&all))
}

fn writes(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let big: &'static [Op] = &[
        Op::Write(0),
        Op::Write(1),
        Op::Write(100),
        Op::Write(16_383),
        Op::Write(16_384),
        Op::Write(16_385),
        Op::Write(40_000),
        Op::Flush,
        Op::Sync,
    ];
    let depth = tier.of(5, 6);
    out.push(Scenario::new("histories", move |ctx| {
        let stale = ctx.choose(2) * 50_000;
        let mut ops = pick_ops(ctx, big, depth);
        ops.push(Op::Flush);
        let r = life(ctx, &ops, stale, vec![])?;
        judge_clean(ctx, &ops, stale, None, &r)
    }));
    // storage that takes its time: what is not waited for is missing
    out.push(Scenario::new("slow-disk", move |ctx| {
        let slow: &'static [Op] = &[Op::Write(1), Op::Write(16_385), Op::Flush, Op::Sync];
        let k = ctx.choose(tier.of(3, 5));
        let mut ops = pick_ops(ctx, slow, k);
        ops.push(Op::Write(300));
        ops.push(if ctx.choose(2) == 1 { Op::Flush } else { Op::Sync });
        let r = life_on(ctx, &ops, 0, vec![], 6_000)?;
        judge_clean(ctx, &ops, 0, None, &r)
    }));
    // every length of a block, first, between others and last
    let lens = sweep(tier.of(20_000, 40_000), tier.of(20, 23));
    out.push(Scenario::new("every-length", move |ctx| {
        let n = ctx.pick(&lens);
        let ops = [Op::Write(n), Op::Write(5), Op::Write(n), if n % 2 == 0 { Op::Flush } else { Op::Sync }];
        let r = life(ctx, &ops, 0, vec![])?;
        judge_clean(ctx, &ops, 0, None, &r)
    }));
    // an older file of any size under the name
    let short: &'static [Op] = &[Op::Write(1), Op::Write(30), Op::Write(4096), Op::Write(40_000), Op::Flush, Op::Sync];
    let n = tier.of(2, 4);
    out.push(Scenario::new("over-an-older-file", move |ctx| {
        let stale = ctx.pick(&[1usize, 2, 13, 31, 40, 64, 65, 512, 4095, 4096, 4097, 16_384, 65_536, 1 << 20, (1 << 21) + 1]);
        let k = ctx.choose(n + 1);
        let mut ops = pick_ops(ctx, short, k);
        ops.push(if ctx.choose(2) == 1 { Op::Flush } else { Op::Sync });
        let r = life(ctx, &ops, stale, vec![])?;
        judge_clean(ctx, &ops, stale, None, &r)
    }));
    let same: &'static [Op] = &[
        Op::Same(0, 1),
        Op::Same(0, 512),
        Op::Same(0, 4096),
        Op::Same(0, 40_000),
        Op::Same(7, 4096),
        Op::Write(4096),
        Op::Flush,
        Op::Sync,
    ];
    out.push(Scenario::new("equal-contents", move |ctx| {
        let stale = ctx.choose(2) * 50_000;
        let mut ops = pick_ops(ctx, same, depth);
        ops.push(Op::Flush);
        let r = life(ctx, &ops, stale, vec![])?;
        judge_clean(ctx, &ops, stale, None, &r)
    }));
    let same: &'static [Op] = &[
        Op::Same(0, 65_536),
        Op::Same(0, 131_073),
        Op::Same(0, 1 << 21),
        Op::Same(0xFF, 1 << 20),
        Op::Write(1),
        Op::Write(70_000),
        Op::Flush,
    ];
    let depth = tier.of(3, 4);
    out.push(Scenario::new("equal-contents-large", move |ctx| {
        let mut ops = pick_ops(ctx, same, depth);
        ops.push(if ctx.choose(2) == 1 { Op::Flush } else { Op::Sync });
        let r = life(ctx, &ops, 50_000, vec![])?;
        judge_clean(ctx, &ops, 50_000, None, &r)
    }));
    let few: &'static [Op] = &[Op::Write(1), Op::Write(300), Op::Write(16_385), Op::Write(40_000), Op::Flush, Op::Sync];
    let depth = tier.of(3, 4);
    out.push(Scenario::new("partial-and-interrupted-calls", move |ctx| {
        let mut ops = pick_ops(ctx, few, depth);
        ops.push(Op::Flush);
        let clean = life(ctx, &ops, 0, vec![])?;
        judge_clean(ctx, &ops, 0, None, &clean)?;
        let f = pick_fault(ctx, &clean.counts, |c| match c {
            Call::Write => vec![Act::Short(1), Act::Short(150), Act::Short(16_000), Act::Intr],
            Call::Sync => vec![Act::Intr],
            _ => vec![],
        });
        if let Some(f) = f {
            let r = life(ctx, &ops, 0, vec![f.clone()])?;
            judge_clean(ctx, &ops, 0, Some(&f), &r)?;
        }
        Ok(())
    }));
    // blocks of megabytes: beyond what any layer below takes in one call
    let large: &'static [Op] = &[
        Op::Write(1),
        Op::Write(300_000),
        Op::Write((1 << 20) - 1),
        Op::Write((1 << 20) + 1),
        Op::Write(1 << 21),
        Op::Write((1 << 21) + 1),
        Op::Write(5_000_011),
        Op::Flush,
        Op::Sync,
    ];
    let depth = tier.of(2, 3);
    out.push(Scenario::new("large-blocks", move |ctx| {
        let mut ops = pick_ops(ctx, large, depth);
        ops.push(Op::Flush);
        let clean = life(ctx, &ops, 0, vec![])?;
        judge_clean(ctx, &ops, 0, None, &clean)?;
        // a partial or interrupted call among the first, middle and last ones
        let n = clean.counts.iter().filter(|c| c.1 == Call::Write).map(|c| c.2).sum::<usize>();
        let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
        at.retain(|i| *i < n);
        at.sort();
        at.dedup();
        let k = ctx.choose(1 + at.len() * tier.of(1, 3));
        if k > 0 {
            let act = [Act::Short(5), Act::Intr, Act::Short(8192)][(k - 1) / at.len()].clone();
            let f = Fault { file: "f".into(), call: Call::Write, nth: at[(k - 1) % at.len()], act };
            let r = life(ctx, &ops, 0, vec![f.clone()])?;
            judge_clean(ctx, &ops, 0, Some(&f), &r)?;
        }
        Ok(())
    }));
    // files beyond 4 GiB: the large blocks are not stored, only noted, and leave holes
    out.push(Scenario::new("beyond-4-gib", move |ctx| {
        let size = ctx.pick(tier.of(&[67_108_864usize], &[67_108_864, 300_000_001, 5_000_011]));
        let every = ctx.pick(tier.of(&[7usize], &[0, 1, 7]));
        let end = ctx.choose(tier.of(1, 2)) == 0;
        let n = (1usize << 32) / size + 3;
        let d = Dir::new(ctx, "bh");
        d.s.st.lock().unwrap().discard = true;
        let path = d.file("f");
        ctx.step(|| format!("{} blocks of {} bytes and then small ones, flushed every {}", n, size, every));
        ctx.steps(n as u64);
        ctx.state(&(n, size, every, end));
        let total = no_panic(|| {
            block_on(async {
                let e = |e: std::io::Error| format!("failed without a file system error: {}", e);
                let mut w = Writer::new(&path).await.map_err(e)?;
                let mut pos = 0u64;
                let mut block = vec![0u8; size];
                for i in 0..n {
                    block.fill((i as u8).wrapping_add(1));
                    w.write_block(&block).await.map_err(e)?;
                    pos += size as u64;
                    eq("position", w.pos(), pos)?;
                    let small = bytes(pos, 1000 + i);
                    w.write_block(&small).await.map_err(e)?;
                    pos += small.len() as u64;
                    eq("position", w.pos(), pos)?;
                    if every > 0 && i % every == 0 {
                        w.flush().await.map_err(e)?;
                        eq("position", w.pos(), pos)?;
                    }
                }
                if end { w.sync().await.map_err(e)? } else { w.flush().await.map_err(e)? };
                eq("position", w.pos(), pos)?;
                Ok::<u64, String>(pos)
            })
        })??;
        eq("length of the file", raw_len(&path)?, total)?;
        let mut holes = std::mem::take(&mut d.s.st.lock().unwrap().holes);
        holes.sort_by_key(|h| h.1);
        let mut k = 0;
        let mut at = 0u64;
        for i in 0..n {
            let block_end = at + size as u64;
            while at < block_end {
                // each block arrives in pieces, the last of which may be a small one
                match holes.get(k) {
                    Some(h) if h.1 == at => {
                        eq(&format!("byte of the block at {}", at), h.3, Some((i as u8).wrapping_add(1)))?;
                        at += h.2 as u64;
                        k += 1;
                    }
                    _ if block_end - at < 1 << 14 => {
                        let b = raw_read_at(&path, at, (block_end - at) as usize)?;
                        diff("end of a block", &b, &vec![(i as u8).wrapping_add(1); (block_end - at) as usize])?;
                        at = block_end;
                    }
                    h => return Err(format!("nothing was written at {} (next write {:?})", at, h)),
                }
            }
            let small = bytes(at, 1000 + i);
            diff(&format!("small block at {}", at), &raw_read_at(&path, at, small.len())?, &small)?;
            at += small.len() as u64;
        }
        ctx.outcome(&total);
        eq("number of large writes", k, holes.len())
    }));
    // many small blocks in a row
    out.push(Scenario::new("many-blocks", move |ctx| {
        let n = ctx.pick(&[100usize, 257, 3000, 66_000]);
        let size = if n < 10_000 { ctx.pick(&[1usize, 7, 127, 1000]) } else { 3 };
        let every = ctx.pick(&[0usize, 1, 10]);
        let mut ops = vec![];
        for i in 0..n {
            ops.push(Op::Write(size + i % 3));
            if every > 0 && i % every == 0 && i % 50 < 5 {
                ops.push(if every == 10 && n < 10_000 { Op::Sync } else { Op::Flush });
            }
        }
        ops.push(Op::Flush);
        let r = life(ctx, &ops, 0, vec![])?;
        ctx.step(|| format!("{} blocks of {} bytes and up, flushed every {}", n, size, every));
        ctx.steps(ops.len() as u64);
        ctx.state(&(n, size, every));
        ctx.outcome(&(r.written, r.counts.len()));
        if let Some(e) = &r.err {
            return Err(format!("failed without a file system error: {}", e));
        }
        check_seen(&r)
    }));
    // read back block by block through the reader
    let depth = tier.of(3, 4);
    out.push(Scenario::new("read-back", move |ctx| {
        let sizes: Vec<usize> = (0..depth)
            .map(|_| ctx.pick(&[0usize, 1, 100, 2047, 16_384, 16_385, 40_000]))
            .collect();
        let flush_each = ctx.choose(2) == 1;
        let d = Dir::new(ctx, "bw");
        let path = d.file("f");
        ctx.step(|| format!("blocks {:?} flush_each={}", sizes, flush_each));
        let got = no_panic(|| {
            block_on(async {
                let mut w = Writer::new(&path).await.map_err(|e| e.to_string())?;
                let mut ranges = vec![];
                for n in &sizes {
                    let start = w.pos();
                    w.write_block(&bytes(start, *n)).await.map_err(|e| e.to_string())?;
                    ranges.push((start, w.pos()));
                    if flush_each {
                        w.flush().await.map_err(|e| e.to_string())?;
                    }
                }
                w.flush().await.map_err(|e| e.to_string())?;
                let r = Reader::new(&path).await.map_err(|e| e.to_string())?;
                eq("length seen by the reader", r.len(), w.pos())?;
                for (i, (s, e)) in ranges.iter().enumerate() {
                    eq("block length", e - s, sizes[i] as u64)?;
                    let b = r.read_block(block_range(*s, *e)).await.map_err(|e| e.to_string())?;
                    diff(&format!("block {}", i), &b, &bytes(*s, sizes[i]))?;
                }
                Ok::<_, String>(ranges)
            })
        })??;
        ctx.steps(2 * sizes.len() as u64);
        ctx.state(&(&sizes, flush_each));
        ctx.outcome(&got);
        Ok(())
    }));
    out
}

fn judge_clean(ctx: &mut Ctx, ops: &[Op], stale: usize, f: Option<&Fault>, r: &Ran) -> Result<(), String> {
    ctx.step(|| format!("{:?} existing_file={} {:?} -> {:?}", ops, stale, f, r.err));
    ctx.steps(ops.len() as u64);
    ctx.state(&(ops, stale, f));
    ctx.outcome(&(r.written, r.counts.len(), f.map(|f| f.nth)));
    if let Some(e) = &r.err {
        return Err(format!("{:?} failed without a file system error: {}", ops, e));
    }
    check_seen(r)?;
    check_synced(&r.log, "f", "sync")
}

fn judge_faulted(ctx: &mut Ctx, ops: &[Op], f: &Fault, r: &Ran) -> Result<(), String> {
    ctx.step(|| format!("{:?} {:?} -> {:?}", ops, f, r.err));
    ctx.steps(ops.len() as u64);
    ctx.state(&(ops, f));
    ctx.outcome(&(&r.ok, f));
    if r.err.is_some() && r.hits == 0 {
        return Err(format!("{:?} failed without a file system error: {:?}", ops, r.err));
    }
    check_seen(r).map_err(|e| format!("{:?} with {:?}: every call reported success, but {}", ops, f, e))?;
    check_synced(&r.log, "f", "sync")
        .map_err(|e| format!("{:?} with {:?}: every call reported success, but {}", ops, f, e))
}

fn writer_faults(tier: Tier) -> Vec<Scenario> {
    let few: &'static [Op] = &[Op::Write(5), Op::Write(16_385), Op::Write(40_000), Op::Flush, Op::Sync];
    let depth = tier.of(4, 5);
    let mut out = vec![];
    for last in [Op::Flush, Op::Sync] {
        out.push(Scenario::new(format!("block-writer-ending-in-{:?}", last), move |ctx| {
            let mut ops = pick_ops(ctx, few, depth);
            ops.push(last);
            let clean = life(ctx, &ops, 0, vec![])?;
            let f = pick_fault(ctx, &clean.counts, |c| match c {
                Call::Open | Call::Seek => vec![Act::Fail(EIO)],
                _ => vec![Act::Fail(EIO), Act::FailOn(ENOSPC)],
            });
            let f = match f {
                Some(f) => f,
                None => return Ok(()),
            };
            let r = life(ctx, &ops, 0, vec![f.clone()])?;
            judge_faulted(ctx, &ops, &f, &r)
        }));
    }
    let histories: &'static [&'static [Op]] = tier.of(
        &[
            &[Op::Write(5), Op::Write(40_000), Op::Flush],
            &[Op::Write(300), Op::Sync, Op::Write(16_385), Op::Sync],
        ],
        &[
            &[Op::Write(5), Op::Flush],
            &[Op::Sync],
            &[Op::Write(40_000), Op::Write(40_000), Op::Sync],
            &[Op::Write(5), Op::Write(40_000), Op::Flush],
            &[Op::Write(300), Op::Sync, Op::Write(16_385), Op::Sync],
            &[Op::Write(300), Op::Flush, Op::Sync, Op::Flush, Op::Sync],
        ],
    );
    out.push(Scenario::new("block-writer-every-errno", move |ctx| {
        let ops = ctx.pick(histories);
        let clean = life(ctx, ops, 0, vec![])?;
        let f = pick_fault(ctx, &clean.counts, |_| {
            every_errno().into_iter().flat_map(|e| vec![Act::Fail(e), Act::FailOn(e)]).collect()
        });
        let f = match f {
            Some(f) => f,
            None => return Ok(()),
        };
        let r = life(ctx, ops, 0, vec![f.clone()])?;
        judge_faulted(ctx, ops, &f, &r)
    }));
    // over an older, longer file
    let depth = tier.of(2, 3);
    out.push(Scenario::new("block-writer-over-older-file", move |ctx| {
        let mut ops = pick_ops(ctx, few, depth);
        ops.push(ctx.pick(&[Op::Flush, Op::Sync]));
        let stale = ctx.pick(&[1usize, 100_000]);
        let clean = life(ctx, &ops, stale, vec![])?;
        let f = pick_fault(ctx, &clean.counts, |c| match c {
            Call::Open | Call::Truncate => every_errno().into_iter().map(Act::Fail).collect(),
            _ => vec![Act::Fail(EIO), Act::FailOn(ENOSPC)],
        });
        let f = match f {
            Some(f) => f,
            None => return Ok(()),
        };
        let r = life(ctx, &ops, stale, vec![f.clone()])?;
        judge_faulted(ctx, &ops, &f, &r)
    }));
    // an error late in a long life
    let n = tier.of(60, 300);
    out.push(Scenario::new("block-writer-long-lives", move |ctx| {
        let size = ctx.pick(&[700usize, 16_384, 20_000]);
        let flush_every = ctx.pick(&[0usize, 1, 7]);
        let mut ops = vec![];
        for i in 0..n {
            ops.push(Op::Write(size));
            if flush_every > 0 && i % flush_every == 0 {
                ops.push(if i % 2 == 0 { Op::Flush } else { Op::Sync });
            }
        }
        ops.push(Op::Sync);
        let clean = life(ctx, &ops, 0, vec![])?;
        let f = pick_fault(ctx, &clean.counts, |c| match c {
            Call::Write | Call::Sync => vec![Act::Fail(EIO), Act::FailOn(ENOSPC)],
            _ => vec![],
        });
        let f = match f {
            Some(f) => f,
            None => return Ok(()),
        };
        let r = life(ctx, &ops, 0, vec![f.clone()])?;
        judge_faulted(ctx, &ops, &f, &r)
    }));
    out
}

// ---------------------------------------------------------------- C14

fn read_block(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let max = tier.of(9u64, 14);
    let one = |ctx: &mut Ctx, len: u64, s: u64, e: u64| -> Result<(), String> {
        let d = Dir::new(ctx, "rb");
        raw_write(&d.file("f"), &bytes(0, len as usize));
        let go = |faults: Vec<Fault>| -> Result<(std::io::Result<Vec<u8>>, usize, usize), String> {
            {
                let mut st = d.s.st.lock().unwrap();
                st.counts.clear();
                st.faults = faults;
                st.hit = 0;
            }
            no_panic(|| {
                block_on(async {
                    let r = match Reader::new(d.file("f")).await {
                        Ok(r) => r,
                        Err(e) => return Ok((Err(e), 0, d.s.hits())),
                    };
                    eq("length", r.len(), len)?;
                    let v = r.read_block(block_range(s, e)).await;
                    let n = d.s.count("f", Call::Read);
                    let hit = d.s.hits();
                    // the reader stays usable
                    d.s.st.lock().unwrap().faults.clear();
                    let again = r.read_block(block_range(0, len.min(3))).await;
                    match again {
                        Ok(b) => diff("a later read", &b, &bytes(0, len.min(3) as usize))?,
                        Err(x) => return Err(format!("a later read failed: {}", x)),
                    }
                    Ok((v, n, hit))
                })
            })?
        };
        let inside = s <= e && e <= len;
        let judge = |v: &std::io::Result<Vec<u8>>, hard: bool| -> Result<(), String> {
            match v {
                Ok(b) if inside || (s == e && b.is_empty()) => diff("block", b, &bytes(s, (e - s) as usize)),
                Ok(b) => Err(format!(
                    "range {}..{} of a file of {} bytes gave {} bytes instead of an error",
                    s, e, len, b.len()
                )),
                Err(_) if hard || !inside => Ok(()),
                Err(x) => Err(format!("range {}..{} of a file of {} bytes: {}", s, e, len, x)),
            }
        };
        let (v, n, _) = go(vec![])?;
        judge(&v, false)?;
        ctx.step(|| format!("len {} range {}..{} -> {:?}", len, s, e, v.as_ref().map(|b| b.len())));
        ctx.state(&(len, s, e));
        let half = ((e.wrapping_sub(s)) / 2).max(1) as usize;
        let counts = [("f".to_string(), Call::Read, n), ("f".to_string(), Call::Open, 1)];
        let f = pick_fault(ctx, &counts, |c| match c {
            Call::Read => vec![Act::Intr, Act::Short(1), Act::Short(half), Act::Fail(EIO), Act::FailOn(EIO)],
            _ => vec![Act::Fail(libc::EACCES), Act::Intr],
        });
        if let Some(f) = f {
            let (v, _, hit) = go(vec![f.clone()])?;
            ctx.step(|| format!("{:?} -> {:?}", f, v.as_ref().map(|b| b.len())));
            ctx.state(&(len, s, e, &f));
            let hard = hit > 0 && matches!(f.act, Act::Fail(_) | Act::FailOn(_));
            judge(&v, hard).map_err(|m| format!("with {:?}: {}", f, m))?;
            ctx.outcome(&(len, s, e, &f, v.is_ok()));
        } else {
            ctx.outcome(&(len, s, e, v.is_ok()));
        }
        Ok(())
    };
    out.push(Scenario::new("all-ranges-of-small-files", move |ctx| {
        let len = ctx.choose(max as usize) as u64;
        let s = ctx.choose(len as usize + 3) as u64;
        let e = ctx.choose(len as usize + 4) as u64;
        one(ctx, len, s, e)
    }));
    out.push(Scenario::new("page-and-buffer-boundaries", move |ctx| {
        let pts: &[u64] = &[0, 1, 4095, 4096, 4097, 16_384, 65_536, 131_072, 131_073, 199_999, 200_000, 200_001];
        let s = ctx.pick(pts);
        let e = ctx.pick(pts);
        one(ctx, 200_000, s, e)
    }));
    // every length of a range
    let lens = sweep(tier.of(4200, 20_000), tier.of(17, 17));
    out.push(Scenario::new("every-length", move |ctx| {
        let n = ctx.pick(&lens) as u64;
        let s = ctx.pick(&[0u64, 1, 4095]);
        let more = ctx.choose(2) as u64;
        one(ctx, s + n + more, s, s + n)
    }));
    out.push(Scenario::new("large-ranges", move |ctx| {
        let pts: &[u64] = tier.of(
            &[0, 1, (1 << 20) + 1, (1 << 21) + 2, 5_000_010, 5_000_011, 5_000_012],
            &[0, 1, 1_000_000, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 2, 1 << 22, 5_000_010, 5_000_011, 5_000_012],
        );
        let s = ctx.pick(pts);
        let e = ctx.pick(pts);
        one(ctx, 5_000_011, s, e)
    }));
    // files of gigabytes, mostly holes, with data around the powers of two
    out.push(Scenario::new("huge-sparse-files", move |ctx| {
        use std::os::unix::fs::FileExt;
        let len = ctx.pick(&[(1u64 << 31) + 100, (1 << 32) - 1, 1 << 32, (1 << 32) + 77, (1 << 34) + 12_345]);
        let d = Dir::new(ctx, "rh");
        let marks: Vec<u64> = [1u64 << 31, 1 << 32, 1 << 33, 1 << 34, len].iter().copied().filter(|m| *m <= len).collect();
        let want = |i: u64| if marks.iter().any(|m| i + 60 >= *m && i < *m + 60) { byte(i) } else { 0 };
        {
            let e = |e: std::io::Error| format!("{}{}", HARNESS, e);
            let f = std::fs::File::create(d.file("f")).map_err(e)?;
            if f.set_len(len).is_err() {
                // no room for such a file here
                return Ok(());
            }
            for m in &marks {
                let from = m - 60;
                let b: Vec<u8> = (from..(m + 60).min(len)).map(byte).collect();
                f.write_all_at(&b, from).map_err(e)?;
            }
        }
        let m = ctx.pick(&marks);
        let s = (m + ctx.choose(5) as u64 * 10).wrapping_sub(20).min(len);
        let e = s + ctx.pick(&[0u64, 1, 19, 20, 45]);
        ctx.step(|| format!("range {}..{} of {} bytes", s, e, len));
        ctx.state(&(len, s, e));
        let v = no_panic(|| {
            block_on(async {
                let r = Reader::new(d.file("f")).await?;
                Ok::<_, std::io::Error>((r.len(), r.read_block(block_range(s, e)).await))
            })
        })?;
        let (n, v) = v.map_err(|e| format!("opening: {}", e))?;
        eq("reported length", n, len)?;
        ctx.outcome(&(len, s, e, v.is_ok()));
        match v {
            Ok(b) if e <= len => diff("block", &b, &(s..e).map(want).collect::<Vec<_>>()),
            Ok(b) => Err(format!("range {}..{} of {} bytes gave {} bytes", s, e, len, b.len())),
            Err(_) if e > len => Ok(()),
            Err(x) => Err(format!("range {}..{} of {} bytes: {}", s, e, len, x)),
        }
    }));
    let every: &'static [i32] = Box::leak(every_errno().into_boxed_slice());
    out.push(Scenario::new("every-errno", move |ctx| {
        let errno = ctx.pick(every);
        let call = ctx.pick(&[Call::Open, Call::Read]);
        let nth = ctx.choose(2);
        let on = ctx.choose(2) == 1;
        let (s, e) = ctx.pick(&[(0u64, 30u64), (3, 4), (7, 30), (5, 5), (20, 31)]);
        let act = if on { Act::FailOn(errno) } else { Act::Fail(errno) };
        let f = Fault { file: "f".into(), call, nth, act };
        let d = Dir::new(ctx, "rb");
        raw_write(&d.file("f"), &bytes(0, 30));
        d.s.st.lock().unwrap().faults = vec![f.clone()];
        let v = no_panic(|| {
            block_on(async {
                let r = Reader::new(d.file("f")).await?;
                r.read_block(block_range(s, e)).await
            })
        })?;
        let hit = d.s.hits();
        ctx.step(|| format!("range {}..{} of 30 bytes, {:?} -> {:?}", s, e, f, v.as_ref().map(|b| b.len())));
        ctx.state(&(&f, s, e));
        ctx.outcome(&(&f, s, e, v.is_ok()));
        match v {
            Ok(b) if e <= 30 => diff("block", &b, &bytes(s, (e - s) as usize)),
            Ok(b) => Err(format!("range {}..{} of 30 bytes gave {} bytes", s, e, b.len())),
            Err(_) if hit > 0 || e > 30 => Ok(()),
            Err(x) => Err(format!("range {}..{}: {}", s, e, x)),
        }
    }));
    // several reads through one reader and its clones, one after the other or at once
    let n = tier.of(3, 4);
    out.push(Scenario::new("sequences-of-reads", move |ctx| {
        const LEN: u64 = 60;
        let ranges: &[(u64, u64)] =
            &[(0, 5), (0, 9), (5, 9), (7, 7), (30, 60), (55, 61), (12, 3), (0, 60), (60, 60)];
        let picks: Vec<(usize, bool)> = (0..n).map(|_| (ctx.choose(ranges.len()), ctx.choose(2) == 1)).collect();
        let together = ctx.choose(2) == 1;
        let d = Dir::new(ctx, "rb");
        raw_write(&d.file("f"), &bytes(0, LEN as usize));
        ctx.step(|| format!("reads (range, through a clone) {:?} together={}", picks, together));
        ctx.steps(n as u64);
        ctx.state(&(&picks, together));
        let got: Vec<std::io::Result<Vec<u8>>> = no_panic(|| {
            block_on(async {
                let a = Reader::new(d.file("f")).await?;
                let b = a.clone();
                let read = |p: &(usize, bool)| {
                    let (s, e) = ranges[p.0];
                    let r = if p.1 { &b } else { &a };
                    r.read_block(block_range(s, e))
                };
                if together {
                    Ok(futures::future::join_all(picks.iter().map(read)).await)
                } else {
                    let mut v = vec![];
                    for p in &picks {
                        v.push(read(p).await);
                    }
                    Ok(v)
                }
            })
        })?
        .map_err(|e: std::io::Error| format!("opening: {}", e))?;
        for (i, (p, g)) in picks.iter().zip(&got).enumerate() {
            let (s, e) = ranges[p.0];
            match g {
                Ok(b) if s <= e && e <= LEN => diff(&format!("read {} ({}..{})", i, s, e), b, &bytes(s, (e - s) as usize))?,
                Ok(_) => return Err(format!("read {} ({}..{}) of {} bytes succeeded", i, s, e, LEN)),
                Err(x) if s <= e && e <= LEN => return Err(format!("read {} ({}..{}): {}", i, s, e, x)),
                Err(_) => {}
            }
        }
        ctx.outcome(&got.iter().map(|g| g.is_ok()).collect::<Vec<_>>());
        diff("the file after reading", &d.content("f")?, &bytes(0, LEN as usize))
    }));
    // a file that grows or shrinks while it is open
    let n = tier.of(4, 5);
    out.push(Scenario::new("changing-files", move |ctx| {
        let d = Dir::new(ctx, "rg");
        let mut len = ctx.pick(&[0usize, 1, 30, 5000]);
        raw_write(&d.file("f"), &bytes(0, len));
        let mut did = vec![len];
        let e = |e: std::io::Error| format!("{}{}", HARNESS, e);
        let file = std::fs::OpenOptions::new().write(true).open(d.file("f")).map_err(e)?;
        let r: Result<(), String> = no_panic(|| {
            block_on(async {
                let r = Reader::new(d.file("f")).await.map_err(|e| format!("opening: {}", e))?;
                eq("reported length", r.len(), len as u64)?;
                for _ in 0..n {
                    let what = ctx.choose(5);
                    did.push(what);
                    match what {
                        // grows
                        0 | 1 => {
                            use std::os::unix::fs::FileExt;
                            let more = if what == 0 { 1 } else { 4099 };
                            file.write_all_at(&bytes(len as u64, more), len as u64).map_err(e)?;
                            len += more;
                        }
                        // shrinks
                        2 => {
                            len /= 2;
                            file.set_len(len as u64).map_err(e)?;
                        }
                        // is read: its end, and beyond it
                        _ => {
                            let (from, to) = if what == 3 { (len.saturating_sub(9), len) } else { (len / 3, len + 1) };
                            let got = r.read_block(block_range(from as u64, to as u64)).await;
                            match got {
                                Ok(b) if what == 3 => diff(&format!("block at {}", from), &b, &bytes(from as u64, to - from))?,
                                Ok(b) => return Err(format!("{}..{} of {} bytes gave {} bytes", from, to, len, b.len())),
                                Err(x) if what == 3 => return Err(format!("{}..{} of {} bytes: {}", from, to, len, x)),
                                Err(_) => {}
                            }
                        }
                    }
                }
                Ok(())
            })
        })?;
        ctx.step(|| format!("length, then grow 1, grow 4099, halve, read the end, read beyond: {:?}", did));
        ctx.steps(n as u64);
        ctx.state(&did);
        ctx.outcome(&(len, r.is_ok()));
        r
    }));
    // very many reads of one reader
    out.push(Scenario::new("many-reads", move |ctx| {
        let n = ctx.pick(tier.of(&[300u64, 5000, 66_000], &[300, 5000, 66_000, 300_000]));
        let size = ctx.pick(&[1u64, 40]);
        let stride = ctx.pick(&[0u64, 1, 7, 4096]);
        let bad = ctx.pick(&[0u64, 1]);
        const LEN: u64 = 300_000;
        let d = Dir::new(ctx, "rm");
        let all = bytes(0, LEN as usize);
        raw_write(&d.file("f"), &all);
        ctx.step(|| format!("{} reads of {} bytes, {} apart; out of bounds now and then: {}", n, size, stride, bad));
        ctx.steps(n);
        ctx.state(&(n, size, stride, bad));
        no_panic(|| {
            block_on(async {
                let mut r = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                for i in 0..n {
                    if i % 1000 == 999 {
                        r = r.clone();
                    }
                    let s = i * stride % (LEN - size);
                    if bad == 1 && i % 100 == 7 {
                        if r.read_block(block_range(LEN - 1, LEN + 1)).await.is_ok() {
                            return Err(format!("read {} reached beyond the end", i));
                        }
                    }
                    let b = r.read_block(block_range(s, s + size)).await.map_err(|e| format!("read {}: {}", i, e))?;
                    if b != all[s as usize..(s + size) as usize] {
                        return Err(format!("read {} ({}+{}) gave {:?}", i, s, size, b));
                    }
                    if i % 1000 == 0 {
                        eq("reported length", r.len(), LEN)?;
                    }
                }
                ctx.outcome(&(n, bad));
                Ok(())
            })
        })?
    }));
    // reads at offsets that are equal in their lower or upper bits
    let n = tier.of(2, 3);
    out.push(Scenario::new("aliased-reads", move |ctx| {
        use std::os::unix::fs::FileExt;
        let shifts: &[u32] = tier.of(&[6, 8, 12, 16, 24, 31, 32], &[3, 6, 7, 8, 10, 12, 14, 16, 17, 20, 24, 28, 30, 31, 32, 33]);
        let shift = ctx.pick(shifts);
        let base = ctx.pick(&[0u64, 13, 4096]);
        let at: Vec<u64> = (0..3).map(|i| base + (i << shift)).collect();
        let len = at[2] + 300;
        let d = Dir::new(ctx, "ra");
        {
            let e = |e: std::io::Error| format!("{}{}", HARNESS, e);
            let f = std::fs::File::create(d.file("f")).map_err(e)?;
            if f.set_len(len).is_err() {
                // no room for such a file here
                return Ok(());
            }
            for a in &at {
                f.write_all_at(&bytes(*a, 300.min(len - a) as usize), *a).map_err(e)?;
            }
        }
        let picks: Vec<(u64, u64, bool)> =
            (0..n).map(|_| (ctx.pick(&at), ctx.pick(&[20u64, 40, 257]), ctx.choose(2) == 1)).collect();
        ctx.step(|| format!("reads (offset, length, through a clone) {:?}", picks));
        ctx.steps(n as u64);
        ctx.state(&picks);
        let got: Vec<std::io::Result<Vec<u8>>> = no_panic(|| {
            block_on(async {
                let a = Reader::new(d.file("f")).await?;
                let b = a.clone();
                let mut v = vec![];
                for (s, n, c) in &picks {
                    v.push(if *c { &b } else { &a }.read_block(block_range(*s, s + n)).await);
                }
                Ok(v)
            })
        })?
        .map_err(|e: std::io::Error| format!("opening: {}", e))?;
        for (i, ((s, n, _), g)) in picks.iter().zip(got).enumerate() {
            let g = g.map_err(|x| format!("read {} ({}+{}): {}", i, s, n, x))?;
            diff(&format!("read {} ({}+{})", i, s, n), &g, &bytes(*s, *n as usize))?;
        }
        ctx.outcome(&(shift, base));
        Ok(())
    }));
    // readers of several files, and of a file that took the place of another one
    let depth = tier.of(5, 6);
    out.push(Scenario::new("several-files", move |ctx| {
        let d = Dir::new(ctx, "rs");
        let names = ["f", "g"];
        // what a file holds, by version: contents and sometimes lengths differ
        let same = ctx.choose(2) == 1;
        let body = |v: u64| bytes(1000 * v, 40 + if same { 0 } else { 3 * v as usize });
        let mut now = [0u64, 1];
        for (n, v) in names.iter().zip(now) {
            raw_write(&d.file(n), &body(v));
        }
        let mut next = 2;
        let ops: Vec<usize> = (0..depth).map(|_| ctx.choose(7)).collect();
        ctx.step(|| format!("equal lengths: {}; steps {:?} (0,1 read f,g; 2,3 open again; 4 replace f, 5 remove and create f; 6 exchange them)", same, ops));
        ctx.steps(depth as u64);
        ctx.state(&(same, &ops));
        let h = |e: std::io::Error| format!("{}{}", HARNESS, e);
        no_panic(|| {
            block_on(async {
                let mut readers: [Option<(Reader, u64)>; 2] = [None, None];
                let mut before: Vec<Reader> = vec![];
                for op in ops.iter().chain(&[0, 1]) {
                    match op {
                        0..=3 => {
                            let i = op % 2;
                            if *op >= 2 || readers[i].is_none() {
                                let r = Reader::new(d.file(names[i])).await.map_err(|e| format!("opening {}: {}", names[i], e))?;
                                before.extend(readers[i].take().map(|x| x.0));
                                readers[i] = Some((r, now[i]));
                            }
                            let (r, v) = readers[i].as_ref().unwrap();
                            let want = body(*v);
                            eq(&format!("length of {}", names[i]), r.len(), want.len() as u64)?;
                            for (s, e) in [(0, want.len() as u64), (5, 9)] {
                                let b = r.read_block(block_range(s, e)).await.map_err(|x| format!("{} {}..{}: {}", names[i], s, e, x))?;
                                diff(&format!("{} {}..{}", names[i], s, e), &b, &want[s as usize..e as usize])?;
                            }
                            if r.read_block(block_range(5, want.len() as u64 + 1)).await.is_ok() {
                                return Err(format!("a read beyond the end of {} succeeded", names[i]));
                            }
                        }
                        4 | 5 => {
                            // readers of the file that is gone are not used any more
                            before.extend(readers[0].take().map(|x| x.0));
                            if *op == 5 {
                                std::fs::remove_file(d.file("f")).map_err(h)?;
                                std::fs::write(d.file("f"), body(next)).map_err(h)?;
                            } else {
                                std::fs::write(d.file("new"), body(next)).map_err(h)?;
                                std::fs::rename(d.file("new"), d.file("f")).map_err(h)?;
                            }
                            now[0] = next;
                            next += 1;
                        }
                        _ => {
                            readers.iter_mut().for_each(|r| before.extend(r.take().map(|x| x.0)));
                            for (a, b) in [("f", "t"), ("g", "f"), ("t", "g")] {
                                std::fs::rename(d.file(a), d.file(b)).map_err(h)?;
                            }
                            now.swap(0, 1);
                        }
                    }
                }
                ctx.outcome(&(now, before.len()));
                Ok(())
            })
        })?
    }));
    // ranges whose ends no file can hold
    out.push(Scenario::new("impossible-ranges", move |ctx| {
        let pts: &[u64] = &[0, 10, 20, 1 << 31, 1 << 32, (1 << 32) + 10, 1 << 40];
        let s = ctx.pick(pts);
        let e = ctx.pick(&[(1u64 << 32) + 20, 15, 20, (1 << 32) + 5]);
        if e > s + 1000 {
            // asking for gigabytes of a small file only costs memory
            return Ok(());
        }
        one(ctx, 20, s, e)
    }));
    out
}

// ---------------------------------------------------------------- C15

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Want {
    s: u64,
    e: u64,
    info: u8,
}

fn info(w: &Want, i: usize) -> OpInfo {
    match w.info {
        0 => OpInfo::GenericBlock,
        1 => OpInfo::IndexBlock,
        _ => OpInfo::DataBlock { first_row_id: i as u32 * 1000 + 7 },
    }
}

const FILE: u64 = 400;

/// One item of a read_blocks stream; `hit`: a read of its range failed.
fn judge_item(
    op: &Want,
    i: usize,
    item: Result<Block<Vec<u8>>, BlockError>,
    hit: bool,
) -> Result<bool, String> {
    judge_item_of(FILE, op, i, item, hit)
}

fn judge_item_of(
    len: u64,
    op: &Want,
    i: usize,
    item: Result<Block<Vec<u8>>, BlockError>,
    hit: bool,
) -> Result<bool, String> {
    let inside = op.s <= op.e && op.e <= len;
    match item {
        Ok(b) => {
            let (buf, inf) = block_parts(b);
            eq(&format!("op_info of item {}", i), inf, info(op, i))?;
            if !inside {
                return Err(format!("item {}: data for a range beyond the file", i));
            }
            diff(&format!("data of item {}", i), &buf, &bytes(op.s, (op.e - op.s) as usize))?;
            Ok(true)
        }
        Err(e) => {
            let (err, inf) = error_parts(e);
            eq(&format!("op_info of the error of item {}", i), inf, info(op, i))?;
            if inside && !hit {
                return Err(format!("item {} failed ({}) although none of its reads did", i, err));
            }
            Ok(false)
        }
    }
}

struct Consumer<'a> {
    stream: Option<Pin<Box<dyn Stream<Item = Result<Block<Vec<u8>>, BlockError>> + Send + 'a>>>,
    ops: Vec<Want>,
    next: usize,
    flag: Arc<Flag>,
    /// results so far: Ok or Err per op
    got: Vec<bool>,
    ended: bool,
}

impl<'a> Consumer<'a> {
    fn new(r: &'a Reader, ops: Vec<Want>) -> Self {
        let reads = ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect();
        Consumer {
            stream: Some(r.read_blocks(reads)),
            ops,
            next: 0,
            flag: Arc::new(Flag(AtomicBool::new(true))),
            got: vec![],
            ended: false,
        }
    }
    /// Polls once. Faulted: byte ranges of failed reads so far.
    fn poll(&mut self, faulted: &[(u64, u64)]) -> Result<bool, String> {
        self.flag.0.store(false, SeqCst);
        let w: Waker = self.flag.clone().into();
        let mut cx = Context::from_waker(&w);
        let p = self.stream.as_mut().unwrap().as_mut().poll_next(&mut cx);
        match p {
            Poll::Pending => Ok(false),
            Poll::Ready(None) => {
                self.ended = true;
                self.stream = None;
                eq("items delivered", self.next, self.ops.len())?;
                Ok(true)
            }
            Poll::Ready(Some(item)) => {
                // more may be ready
                self.flag.0.store(true, SeqCst);
                if self.next >= self.ops.len() {
                    return Err("more items than operations".into());
                }
                let i = self.next;
                self.next += 1;
                let op = self.ops[i];
                let hit = faulted.iter().any(|(a, b)| *a < op.e && *b > op.s);
                self.got.push(judge_item(&op, i, item, hit)?);
                Ok(true)
            }
        }
    }
    fn live(&self) -> bool {
        self.stream.is_some()
    }
    fn woken(&self) -> bool {
        self.flag.0.load(SeqCst)
    }
}

/// Explores every order in which outstanding reads complete.
fn schedule(
    ctx: &mut Ctx,
    batches: Vec<Vec<Want>>,
    fault_budget: usize,
    acts: &[Act],
    drop_after: Option<usize>,
) -> Result<(), String> {
    let d = Dir::new(ctx, "rs");
    raw_write(&d.file("f"), &bytes(0, FILE as usize));
    let reader = block_on(Reader::new(d.file("f"))).map_err(|e| e.to_string())?;
    let batches_n = batches.clone();
    d.s.st.lock().unwrap().gate = true;
    let r = with_multi(|_, group| -> Result<(), String> {
        let mut cs: Vec<Consumer> = vec![];
        let mut later: Vec<Vec<Want>> = vec![];
        let mut batches = batches;
        if drop_after.is_some() {
            later = batches.split_off(1);
        }
        for b in batches {
            cs.push(Consumer::new(&reader, b));
        }
        let mut budget = fault_budget;
        let mut faulted: Vec<(u64, u64)> = vec![];
        let mut trace: Vec<(u8, u64, u64)> = vec![];
        let quiet = || -> Result<(), String> {
            if quiescent(group) {
                Ok(())
            } else {
                Err(format!("{}threads do not become quiescent", HARNESS))
            }
        };
        let mut res = (|| -> Result<(), String> {
            for _ in 0..10_000 {
                quiet()?;
                // what can happen next: poll a woken consumer, or let a pending read complete
                let polls: Vec<usize> = (0..cs.len()).filter(|&i| cs[i].live() && cs[i].woken()).collect();
                // identical reads are indistinguishable: they complete together
                let all = d.s.waiting();
                let mut reads = all.clone();
                reads.dedup_by_key(|r| (r.1, r.2));
                if let (Some(k), Some(c)) = (drop_after, cs.first_mut()) {
                    if c.live() && c.next >= k && !later.is_empty() {
                        trace.push((9, 0, 0));
                        ctx.step(|| "drop the stream; start another".into());
                        c.stream = None;
                        let b = later.remove(0);
                        cs.push(Consumer::new(&reader, b));
                        continue;
                    }
                }
                let n_acts = if budget > 0 { acts.len() } else { 1 };
                let n = polls.len() + reads.len() * n_acts;
                if n == 0 {
                    if cs.iter().all(|c| !c.live()) {
                        return Ok(());
                    }
                    return Err("the stream is pending, nothing is in flight and nobody will wake it".into());
                }
                let c = ctx.choose(n);
                if c < polls.len() {
                    let i = polls[c];
                    let ready = cs[i].poll(&faulted)?;
                    trace.push((1, i as u64, ready as u64));
                    ctx.step(|| format!("poll stream {} -> {}", i, if ready { "ready" } else { "pending" }));
                } else {
                    let c = c - polls.len();
                    let (_, off, len) = reads[c / n_acts];
                    let act = acts[c % n_acts];
                    if act != Act::Go {
                        budget -= 1;
                    }
                    if let Act::Fail(e) = act {
                        if e != EINTR {
                            faulted.push((off, off + len as u64));
                        }
                    }
                    trace.push((2 + (c % n_acts) as u8, off, len as u64));
                    ctx.step(|| format!("read {}..{} completes: {:?}", off, off + len as u64, act));
                    for (id, o, l) in &all {
                        if (*o, *l) == (off, len) {
                            d.s.release(*id, act);
                        }
                    }
                }
                ctx.state(&(&batches_n, &trace));
            }
            Err("the stream never ends".into())
        })();
        if res.is_ok() {
            let got: Vec<_> = cs.iter().map(|c| c.got.clone()).collect();
            ctx.outcome(&(&batches_n, &got, &faulted));
        }
        // leave nothing behind
        d.s.open_gate();
        drop(cs);
        if !quiescent(group) && res.is_ok() {
            res = Err(format!("{}threads do not become quiescent", HARNESS));
        }
        res
    });
    r
}

fn unique(n: usize, first: u64) -> Vec<Want> {
    (0..n)
        .map(|i| Want {
            s: first + 20 * i as u64,
            e: first + 20 * i as u64 + 10 + i as u64,
            info: (2 + i as u8) % 3,
        })
        .collect()
}

fn read_blocks(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    // every completion order, no faults
    for n in 0..=tier.of(6usize, 8) {
        out.push(Scenario::new(format!("{}-reads-every-completion-order", n), move |ctx| {
            schedule(ctx, vec![unique(n, 0)], 0, &[Act::Go], None)
        }));
    }
    for n in 1..=tier.of(4usize, 6) {
        let budget = if n <= 3 { 2 } else { 1 };
        out.push(Scenario::new(format!("{}-reads-up-to-{}-faults", n, budget), move |ctx| {
            schedule(
                ctx,
                vec![unique(n, 3)],
                budget,
                &[Act::Go, Act::Fail(EIO), Act::Short(4), Act::Intr],
                None,
            )
        }));
    }
    // every error the kernel can answer with
    let mut acts = vec![Act::Go];
    acts.extend(every_errno().into_iter().map(Act::Fail));
    let acts: &'static [Act] = Box::leak(acts.into_boxed_slice());
    for n in 1..=tier.of(2usize, 3) {
        out.push(Scenario::new(format!("{}-reads-every-errno", n), move |ctx| {
            schedule(ctx, vec![unique(n, 3)], 1, acts, None)
        }));
    }
    // ranges in every shape: repeated, overlapping, empty, descending, beyond the end
    let shapes: Vec<Want> = vec![
        Want { s: 100, e: 120, info: 2 },
        Want { s: 110, e: 130, info: 1 },
        Want { s: 390, e: 410, info: 2 },
        Want { s: 0, e: FILE, info: 0 },
    ];
    let n = tier.of(3usize, 4);
    // empty ranges need no file system call, so their completion cannot be scheduled: these
    // run to completion freely
    let mut free = shapes.clone();
    free.push(Want { s: 50, e: 50, info: 2 });
    free.push(Want { s: FILE, e: FILE, info: 1 });
    let nf = tier.of(4usize, 5);
    out.push(Scenario::new("empty-ranges", move |ctx| {
        let ops: Vec<Want> = (0..nf).map(|_| ctx.pick(&free)).collect();
        ctx.step(|| format!("{:?}", ops));
        ctx.steps(nf as u64);
        ctx.state(&ops);
        let d = Dir::new(ctx, "rf");
        raw_write(&d.file("f"), &bytes(0, FILE as usize));
        no_panic(|| {
            block_on(async {
                let reader = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let reads = ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect();
                let items: Vec<_> = reader.read_blocks(reads).collect().await;
                eq("items delivered", items.len(), ops.len())?;
                for (i, it) in items.into_iter().enumerate() {
                    judge_item(&ops[i], i, it, false)?;
                }
                Ok::<(), String>(())
            })
        })?
    }));
    // long streams, some of whose reads take long or fail
    out.push(Scenario::new("long-streams", move |ctx| {
        let n = ctx.pick(tier.of(&[3usize, 33, 257, 1030], &[3, 17, 33, 65, 129, 257, 1030, 5000, 66_000]));
        let size = ctx.pick(&[1u64, 7, 30, 5000]);
        let slow = ctx.choose(4);
        let bad = ctx.choose(3);
        let order = ctx.choose(3);
        let file = 10 + n as u64 * 7 + size;
        let ops: Vec<Want> = (0..n)
            .map(|i| {
                let k = match order {
                    0 => i,
                    1 => n - 1 - i,
                    _ => (i * 7) % n,
                } as u64;
                let s = 3 + 7 * k;
                match bad {
                    1 if i % 10 == 1 => Want { s: file + s, e: file + s + size, info: (i % 3) as u8 },
                    2 if i == n / 2 => Want { s, e: file + 1, info: (i % 3) as u8 },
                    _ => Want { s, e: s + size, info: (i % 3) as u8 },
                }
            })
            .collect();
        let at: Vec<usize> = match slow {
            0 => vec![],
            1 => vec![0],
            2 => vec![n / 2],
            _ => (0..n).filter(|i| i % (n / 6 + 2) == 1).collect(),
        };
        ctx.step(|| format!("{} ranges of {} bytes, order {}, slow {:?}, failing pattern {}", n, size, order, at, bad));
        ctx.steps(n as u64);
        ctx.state(&(n, size, slow, bad, order));
        let d = Dir::new(ctx, "rf");
        raw_write(&d.file("f"), &bytes(0, file as usize));
        d.s.st.lock().unwrap().slow_reads = at.iter().map(|i| (ops[*i].s, 3_000)).collect();
        let r: Result<Vec<bool>, String> = no_panic(|| {
            block_on(async {
                let reader = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let reads = ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect();
                let items: Vec<_> = reader.read_blocks(reads).collect().await;
                eq("items delivered", items.len(), ops.len())?;
                let mut ok = vec![];
                for (i, it) in items.into_iter().enumerate() {
                    ok.push(judge_item_of(file, &ops[i], i, it, false)?);
                }
                Ok(ok)
            })
        })?;
        ctx.outcome(&r?);
        Ok(())
    }));
    // offsets beyond 31 and 32 bits, in every order
    out.push(Scenario::new("huge-sparse-streams", move |ctx| {
        use std::os::unix::fs::FileExt;
        let marks = [1u64 << 31, 1 << 32, 1 << 33];
        let len = (1u64 << 33) + 30;
        let d = Dir::new(ctx, "rs");
        let e = |e: std::io::Error| format!("{}{}", HARNESS, e);
        {
            let f = std::fs::File::create(d.file("f")).map_err(e)?;
            if f.set_len(len).is_err() {
                return Ok(());
            }
            f.write_all_at(&bytes(0, 60), 0).map_err(e)?;
            for m in marks {
                f.write_all_at(&bytes(m - 60, (60 + 60.min(len - m)) as usize), m - 60).map_err(e)?;
            }
        }
        let k = tier.of(4usize, 5);
        let all = [(0u64, 20), (marks[0] - 10, 20), (marks[1] - 10, 20), (marks[1], 20), (marks[1] + 3, 40), (marks[2] - 40, 60), (len - 5, 9)];
        let ops: Vec<Want> = (0..k)
            .map(|i| {
                let (s, n) = ctx.pick(&all);
                Want { s, e: s + n, info: (i % 3) as u8 }
            })
            .collect();
        ctx.step(|| format!("{:?}", ops));
        ctx.steps(k as u64);
        ctx.state(&ops);
        let r: Result<Vec<bool>, String> = no_panic(|| {
            block_on(async {
                let reader = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let reads = ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect();
                let items: Vec<_> = reader.read_blocks(reads).collect().await;
                eq("items delivered", items.len(), ops.len())?;
                let mut ok = vec![];
                for (i, it) in items.into_iter().enumerate() {
                    ok.push(judge_item_of(len, &ops[i], i, it, false)?);
                }
                Ok(ok)
            })
        })?;
        ctx.outcome(&r?);
        Ok(())
    }));
    // blocks of many sizes, the largest of them far beyond the usual
    out.push(Scenario::new("large-blocks", move |ctx| {
        let sizes: &[u64] = tier.of(&[0u64, 100, 131_072, 9 << 20], &[0u64, 100, 131_072, (1 << 20) + 1, 9 << 20, 70 << 20]);
        let mut at = 5;
        let ops: Vec<Want> = (0..3)
            .map(|i| {
                let n = ctx.pick(sizes);
                at += n + 3;
                Want { s: at - n - 3, e: at - 3, info: i }
            })
            .collect();
        ctx.step(|| format!("{:?}", ops));
        ctx.steps(3);
        ctx.state(&ops);
        let d = Dir::new(ctx, "rl");
        raw_write(&d.file("f"), &bytes(0, at as usize));
        let r: Result<Vec<bool>, String> = no_panic(|| {
            block_on(async {
                let reader = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let reads = ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect();
                let items: Vec<_> = reader.read_blocks(reads).collect().await;
                eq("items delivered", items.len(), ops.len())?;
                let mut ok = vec![];
                for (i, it) in items.into_iter().enumerate() {
                    ok.push(judge_item_of(at, &ops[i], i, it, false)?);
                }
                Ok(ok)
            })
        })?;
        ctx.outcome(&r?);
        Ok(())
    }));
    // streams over two files at once, items taken in every order; then the first file is
    // replaced and read again
    let k = tier.of(3usize, 4);
    out.push(Scenario::new("streams-of-two-files", move |ctx| {
        const LEN: usize = 100;
        let body = |v: u64| bytes(10_000 * v, LEN);
        let ranges = [(0u64, 10u64), (0, 10), (7, 50), (90, 101), (50, 50)];
        let mut picks: Vec<Vec<(u64, u64)>> = vec![];
        for i in 0..2 {
            picks.push((0..k - i).map(|_| ctx.pick(&ranges)).collect());
        }
        let d = Dir::new(ctx, "rt");
        for (n, v) in [("f", 0), ("g", 1)] {
            raw_write(&d.file(n), &body(v));
        }
        let mut order = vec![];
        let judge = |what: &str, v: u64, i: usize, r: (u64, u64), it: Option<Result<Block<Vec<u8>>, BlockError>>| -> Result<(), String> {
            match it {
                None => Err(format!("{}: the stream ends before range {}", what, i)),
                Some(it) => {
                    let ok = r.1 <= LEN as u64;
                    eq(&format!("{}: range {:?} was read", what, r), it.is_ok(), ok)?;
                    let inf = match it {
                        Ok(b) => {
                            let (buf, inf) = block_parts(b);
                            diff(&format!("{}: range {:?}", what, r), &buf, &body(v)[r.0 as usize..r.1 as usize])?;
                            inf
                        }
                        Err(e) => error_parts(e).1,
                    };
                    eq(&format!("{}: information of range {}", what, i), inf, OpInfo::DataBlock { first_row_id: i as u32 })
                }
            }
        };
        let ask = |l: &[(u64, u64)]| l.iter().enumerate().map(|(i, r)| read_op(r.0, r.1, OpInfo::DataBlock { first_row_id: i as u32 })).collect::<Vec<_>>();
        let res: Result<(), String> = no_panic(|| {
            block_on(async {
                let f = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let g = Reader::new(d.file("g")).await.map_err(|e| e.to_string())?;
                {
                    let mut streams = [f.read_blocks(ask(&picks[0])), g.read_blocks(ask(&picks[1]))];
                    let mut at = [0, 0];
                    loop {
                        let going: Vec<usize> = (0..2).filter(|i| at[*i] < picks[*i].len()).collect();
                        if going.is_empty() {
                            break;
                        }
                        let i = if going.len() == 1 { going[0] } else { ctx.pick(&going) };
                        order.push(i);
                        judge(["f", "g"][i], i as u64, at[i], picks[i][at[i]], streams[i].next().await)?;
                        at[i] += 1;
                    }
                    for s in &mut streams {
                        if s.next().await.is_some() {
                            return Err("more results than ranges".into());
                        }
                    }
                }
                drop(f);
                raw_write(&d.file("n"), &body(2));
                std::fs::rename(d.file("n"), d.file("f")).map_err(|e| format!("{}{}", HARNESS, e))?;
                let f = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let mut s = f.read_blocks(ask(&picks[0]));
                for (i, r) in picks[0].iter().enumerate() {
                    judge("f replaced", 2, i, *r, s.next().await)?;
                }
                Ok(())
            })
        })?;
        ctx.step(|| format!("ranges {:?}, order {:?}", picks, order));
        ctx.steps(order.len() as u64 + k as u64);
        ctx.state(&(&picks, &order));
        ctx.outcome(&(&order, res.is_ok()));
        res
    }));
    // a file that grows or shrinks before and while a stream is read
    out.push(Scenario::new("changing-files", move |ctx| {
        let first = ctx.pick(&[10u64, 400, 9000]);
        let then = ctx.pick(&[10u64, 400, 9000]);
        let half = ctx.choose(2) == 1;
        let k = tier.of(3, 4);
        let ops: Vec<Want> = (0..k)
            .map(|i| {
                let (s, e) = ctx.pick(&[(0u64, 9u64), (300, 400), (8000, 9000), (399, 401)]);
                Want { s, e, info: (i % 3) as u8 }
            })
            .collect();
        ctx.step(|| format!("{} bytes, then {} (a stream read before: {}): {:?}", first, then, half, ops));
        ctx.steps(k as u64);
        ctx.state(&(first, then, half, &ops));
        let d = Dir::new(ctx, "rg");
        raw_write(&d.file("f"), &bytes(0, first as usize));
        let r: Result<Vec<bool>, String> = no_panic(|| {
            block_on(async {
                let reader = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                let reads = || ops.iter().enumerate().map(|(i, w)| read_op(w.s, w.e, info(w, i))).collect::<Vec<_>>();
                let mut ok = vec![];
                if half {
                    let items: Vec<_> = reader.read_blocks(reads()).collect().await;
                    eq("items delivered", items.len(), ops.len())?;
                    for (i, it) in items.into_iter().enumerate() {
                        ok.push(judge_item_of(first, &ops[i], i, it, false)?);
                    }
                }
                let e = |e: std::io::Error| format!("{}{}", HARNESS, e);
                let file = std::fs::OpenOptions::new().write(true).open(d.file("f")).map_err(e)?;
                file.set_len(then).map_err(e)?;
                if then > first {
                    use std::os::unix::fs::FileExt;
                    file.write_all_at(&bytes(first, (then - first) as usize), first).map_err(e)?;
                }
                let items: Vec<_> = reader.read_blocks(reads()).collect().await;
                eq("items delivered", items.len(), ops.len())?;
                for (i, it) in items.into_iter().enumerate() {
                    ok.push(judge_item_of(then, &ops[i], i, it, false)?);
                }
                Ok(ok)
            })
        })?;
        ctx.outcome(&r?);
        Ok(())
    }));
    // very many streams of one reader, some of them left before they end
    out.push(Scenario::new("many-streams", move |ctx| {
        let n = ctx.pick(tier.of(&[300u64, 5000], &[300, 5000, 70_000]));
        let per = ctx.pick(&[1u64, 3]);
        let leave = ctx.choose(3) as u64;
        const LEN: u64 = 5000;
        let d = Dir::new(ctx, "rn");
        raw_write(&d.file("f"), &bytes(0, LEN as usize));
        ctx.step(|| format!("{} streams of {} ranges; left early: {}", n, per, leave));
        ctx.steps(n * per);
        ctx.state(&(n, per, leave));
        ctx.outcome(&(per, leave));
        no_panic(|| {
            block_on(async {
                let r = Reader::new(d.file("f")).await.map_err(|e| e.to_string())?;
                for i in 0..n {
                    let ops: Vec<Want> = (0..per)
                        .map(|k| {
                            let s = (7 * i + 3 * k) % (LEN - 20);
                            let bad = leave == 2 && i % 50 == 3 && k + 1 == per;
                            Want { s, e: if bad { LEN + 1 } else { s + 1 + (i + k) % 19 }, info: ((i + k) % 3) as u8 }
                        })
                        .collect();
                    let reads = ops.iter().enumerate().map(|(j, w)| read_op(w.s, w.e, info(w, j))).collect();
                    let mut st = r.read_blocks(reads);
                    let take = if leave == 1 && i % 7 == 2 { per / 2 } else { per };
                    for j in 0..take as usize {
                        let it = st.next().await.ok_or_else(|| format!("stream {} ends before range {}", i, j))?;
                        judge_item_of(LEN, &ops[j], j, it, false).map_err(|e| format!("stream {}: {}", i, e))?;
                    }
                    if take == per && st.next().await.is_some() {
                        return Err(format!("stream {} has more results than ranges", i));
                    }
                }
                Ok(())
            })
        })?
    }));
    out.push(Scenario::new("range-shapes", move |ctx| {
        let ops: Vec<Want> = (0..n).map(|_| ctx.pick(&shapes)).collect();
        ctx.step(|| format!("{:?}", ops));
        schedule(ctx, vec![ops], 0, &[Act::Go], None)
    }));
    let n = tier.of(1usize, 2);
    out.push(Scenario::new("two-streams-of-one-reader", move |ctx| {
        schedule(ctx, vec![unique(2, 0), unique(n, 200)], 0, &[Act::Go], None)
    }));
    out.push(Scenario::new("stream-dropped-then-another", move |ctx| {
        let k = ctx.choose(2);
        schedule(ctx, vec![unique(3, 0), unique(2, 200)], 0, &[Act::Go], Some(k))
    }));
    out.into_iter().map(|s| s.isolated()).collect()
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    let mk = |id, level, rule, assumptions, scenarios| {
        Some(Check { id, level, rule, assumptions, scenarios })
    };
    match id {
        "C12" => mk(
            "C12",
            "model_checking",
            "every sequence of up to the stated number of write_block(size)/flush/sync operations with sizes around the 16 KiB boundary, over a new and an existing file, and for each of them every write or sync call of the run made partial or interrupted; after each operation the position, and after each flush or sync the file, must equal the concatenation of the blocks; blocks are read back through the block reader",
            vec!["block contents come from one fixed position-dependent pattern", "calls reach the kernel through the libc functions std and tokio use"],
            writes(tier),
        ),
        "C13" => {
            let mut s = writer_faults(tier);
            #[cfg(feature = "seg")]
            s.extend(crate::seg::faults(tier));
            #[cfg(feature = "enc")]
            crate::enc::sink_failures(tier, &mut s);
            mk(
                "C13",
                "model_checking",
                "every history within the bound x every file system call it makes (open, write, sync, seek) x {that call fails, that and all later ones fail}; and every block write an encoder makes refused by its sink. Either an operation reports an error or, at the reported flush or sync, the file holds every byte written (and a successful sync followed the last write)",
                vec!["one fault point per run", "an error is judged reported when any operation up to and including the final flush, sync or close returns it"],
                s,
            )
        }
        "C14" => mk(
            "C14",
            "model_checking",
            "every (start, end) pair of every small file and every pair of boundary points of a 200,000 byte file x {no fault, every read call made interrupted, partial or failing, opening failing}; the result is the exact bytes, or an error exactly when the range is not inside the file or a call failed",
            vec!["ranges are at most a few bytes beyond the file (a block far larger than memory is out of scope)"],
            read_block(tier),
        ),
        "C15" => mk(
            "C15",
            "model_checking",
            "all schedules of a reader stream: at every quiescent point (all runtime threads asleep) the scheduler picks which woken stream to poll or which outstanding pread completes and how (full, partial, interrupted, failed); items must come in operation order, each with its own operation's info and bytes, errors only where a read failed",
            vec!["threads of the runtime interact with each other only between file system calls and wake-ups; quiescence is observed through /proc"],
            read_blocks(tier),
        ),
        _ => None,
    }
}

