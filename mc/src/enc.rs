//! C06..C10, C20: column encoders, driven through the public encoder constructors with a
//! recording sink; blocks are read back by an independent decoder.

use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use async_trait::async_trait;

use crate::buffers::{available_memory, Prim};
use crate::codec::{packed_len, ref_rle, ref_rle_len, ref_unpack, ref_varint};
use crate::explore::*;
use crate::store::verif::buffers::*;
use crate::store::verif::metadata::column_layout::EncoderLayout;
use crate::store::verif::metadata::Encoding;
use crate::store::verif::*;
use crate::util::*;
use crate::{Check, Tier};

pub struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}

/// Polls a future that only ever waits for the recording sink.
pub fn drive<T>(mut f: Pin<Box<dyn Future<Output = T> + Send + '_>>) -> T {
    let w: Waker = Arc::new(Noop).into();
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000_000u64 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("the future never completes");
}

pub struct Yield(pub bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, false) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

/// Records every block it is handed.
#[derive(Default)]
pub struct VSink {
    pub blocks: Vec<(u32, Vec<u8>)>,
    /// accept at most this many blocks (non-termination guard)
    pub limit: usize,
    /// suspend (Pending) before accepting a block, this often or, for later blocks, more often
    pub suspend: bool,
    pub longer: bool,
    /// refuse the n-th write_block call (0-based)
    pub fail_at: Option<usize>,
    pub calls: usize,
    pub failed: bool,
}

#[async_trait]
impl BlockSink for VSink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> anyhow::Result<()> {
        let call = self.calls;
        self.calls += 1;
        if self.suspend {
            for _ in 0..if self.longer { 1 + call % 3 } else { 1 } {
                Yield(true).await;
            }
        }
        if self.fail_at == Some(call) {
            self.failed = true;
            return Err(anyhow::anyhow!("injected sink failure"));
        }
        if self.blocks.len() >= self.limit {
            panic!("more than {} blocks for fewer rows", self.limit);
        }
        self.blocks.push((row_id, block_data.to_vec()));
        Ok(())
    }
}

/// A row: None is null, otherwise (value number, length for binary columns).
pub type Row = Option<(u32, u32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cell {
    Null,
    Bits(u64),
    Bytes(Vec<u8>),
}

/// A kind of column.
pub trait Kind: 'static {
    const NAME: &'static str;
    /// size of a fixed width value, None for binary
    const WIDTH: Option<usize>;
    type Buf: Send + Sync;
    fn buf(nullable: bool) -> Self::Buf;
    fn push(b: &mut Self::Buf, seq: u32, len: u32);
    fn null(b: &mut Self::Buf);
    fn clear(b: &mut Self::Buf);
    fn cell(seq: u32, len: u32) -> Cell;
    fn encoder<S: BlockSink + Send + 'static>(
        e: Encoding,
        block: usize,
        nullable: bool,
    ) -> anyhow::Result<Box<dyn BlockEncoder<Self::Buf, S>>>;
    /// cells of one block of `rows` rows
    fn decode(block: &[u8], nullable: bool, rows: usize) -> Result<Vec<Cell>, String>;

    fn size(seq: u32, len: u32) -> usize {
        let _ = seq;
        Self::WIDTH.unwrap_or(len as usize)
    }
}

fn data_part(block: &[u8]) -> Result<(&[u8], &[u8]), String> {
    let (n, k) = ref_varint(block).ok_or("bad data length")?;
    let end = k + n as usize;
    if end > block.len() {
        return Err(format!("data length {} in a block of {} bytes", n, block.len()));
    }
    Ok((&block[k..end], &block[end..]))
}

/// Validity bits of `rows` rows stored in `enc`; exactly `vals` must be set.
fn validity(enc: &[u8], rows: usize, vals: usize) -> Result<Vec<bool>, String> {
    let bytes = ref_rle(enc)?;
    if bytes.len() != (rows + 7) / 8 {
        return Err(format!("validity of {} bytes for {} rows", bytes.len(), rows));
    }
    let bits: Vec<bool> = (0..bytes.len() * 8).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
    if bits[rows..].iter().any(|b| *b) {
        return Err("validity bits beyond the last row".into());
    }
    let set = bits.iter().filter(|b| **b).count();
    if set != vals {
        return Err(format!("{} values but {} valid rows", vals, set));
    }
    Ok(bits[..rows].to_vec())
}

fn spread(valid: &[bool], vals: Vec<Cell>) -> Vec<Cell> {
    let mut it = vals.into_iter();
    valid
        .iter()
        .map(|v| if *v { it.next().unwrap() } else { Cell::Null })
        .collect()
}

pub fn decode_prim(
    block: &[u8],
    nullable: bool,
    rows: usize,
    width: usize,
) -> Result<Vec<Cell>, String> {
    let (data, rest) = data_part(block)?;
    if data.len() % width != 0 {
        return Err(format!("{} data bytes for values of {} bytes", data.len(), width));
    }
    let vals: Vec<Cell> = data
        .chunks(width)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..width].copy_from_slice(c);
            Cell::Bits(u64::from_le_bytes(b))
        })
        .collect();
    if nullable {
        let v = validity(rest, rows, vals.len())?;
        Ok(spread(&v, vals))
    } else {
        if !rest.is_empty() {
            return Err(format!("{} unexpected bytes after the data", rest.len()));
        }
        if vals.len() != rows {
            return Err(format!("{} values for {} rows", vals.len(), rows));
        }
        Ok(vals)
    }
}

pub fn decode_bin(block: &[u8], nullable: bool, rows: usize) -> Result<Vec<Cell>, String> {
    let (data, rest) = data_part(block)?;
    let (bits, packed) = rest.split_first().ok_or("no item length section")?;
    let bits = *bits as usize;
    let cut = |lens: &[u32]| -> Result<Vec<Cell>, String> {
        let total: u64 = lens.iter().map(|l| *l as u64).sum();
        if total != data.len() as u64 {
            return Err(format!("item lengths add up to {} of {} bytes", total, data.len()));
        }
        let mut p = 0;
        Ok(lens
            .iter()
            .map(|l| {
                let c = Cell::Bytes(data[p..p + *l as usize].to_vec());
                p += *l as usize;
                c
            })
            .collect())
    };
    if !nullable {
        let lens = ref_unpack(packed, rows, bits)?;
        if packed.len() != packed_len(rows, bits) {
            return Err(format!("{} bytes of item lengths, {} expected", packed.len(), packed_len(rows, bits)));
        }
        return cut(&lens);
    }
    // The number of values is not stored: it is the number of valid rows. Accept the one
    // consistent reading.
    let mut found: Vec<Vec<Cell>> = vec![];
    let mut why = String::from("no consistent number of values");
    // validity by its offset: (bytes, bits set)
    let mut rle_at: HashMap<usize, Result<(usize, usize), String>> = HashMap::new();
    let mut bad_off = usize::MAX;
    for n in 0..=rows {
        let off = packed_len(n, bits);
        if off == bad_off {
            continue;
        }
        if off > packed.len() {
            break;
        }
        if rows > 2000 && ref_rle_len(&packed[off..]) != Some((rows + 7) / 8) {
            bad_off = off;
            why = String::from("validity of a wrong length");
            continue;
        }
        let bytes = rle_at.entry(off).or_insert_with(|| {
            ref_rle(&packed[off..]).map(|b| (b.len(), b.iter().map(|x| x.count_ones() as usize).sum()))
        });
        let set = match bytes {
            Ok((len, set)) if *len == (rows + 7) / 8 => *set,
            Ok((len, _)) => {
                why = format!("validity of {} bytes for {} rows", len, rows);
                continue;
            }
            Err(e) => {
                why = e.clone();
                continue;
            }
        };
        if set != n {
            continue;
        }
        let r = validity(&packed[off..], rows, n)
            .and_then(|v| ref_unpack(packed, n, bits).and_then(|l| cut(&l)).map(|c| spread(&v, c)));
        match r {
            Ok(c) => found.push(c),
            Err(e) => why = e,
        }
    }
    match found.len() {
        0 => Err(why),
        1 => Ok(found.pop().unwrap()),
        k => Err(format!("the block has {} consistent readings", k)),
    }
}

macro_rules! prim_kind {
    ($k:ident, $t:ty, $ctor:path) => {
        pub struct $k;
        impl Kind for $k {
            const NAME: &'static str = <$t as Prim>::NAME;
            const WIDTH: Option<usize> = Some(std::mem::size_of::<$t>());
            type Buf = PrimitiveBuffer<$t>;
            fn buf(nullable: bool) -> Self::Buf {
                PrimitiveBuffer::new(nullable)
            }
            fn push(b: &mut Self::Buf, seq: u32, _len: u32) {
                b.append(<$t>::make(seq))
            }
            fn null(b: &mut Self::Buf) {
                b.append_null()
            }
            fn clear(b: &mut Self::Buf) {
                b.clear()
            }
            fn cell(seq: u32, _len: u32) -> Cell {
                Cell::Bits(<$t>::make(seq).bits())
            }
            fn encoder<S: BlockSink + Send + 'static>(
                e: Encoding,
                block: usize,
                nullable: bool,
            ) -> anyhow::Result<Box<dyn BlockEncoder<Self::Buf, S>>> {
                $ctor(e, block, nullable)
            }
            fn decode(block: &[u8], nullable: bool, rows: usize) -> Result<Vec<Cell>, String> {
                decode_prim(block, nullable, rows, std::mem::size_of::<$t>())
            }
        }
    };
}
prim_kind!(I32, i32, new_i32_encoder);
prim_kind!(I64, i64, new_i64_encoder);
prim_kind!(U64, u64, new_u64_encoder);
prim_kind!(F64, f64, new_f64_encoder);

pub struct Bin;
impl Kind for Bin {
    const NAME: &'static str = "binary";
    const WIDTH: Option<usize> = None;
    type Buf = BinaryBuffer;
    fn buf(nullable: bool) -> BinaryBuffer {
        BinaryBuffer::new(nullable)
    }
    fn push(b: &mut BinaryBuffer, seq: u32, len: u32) {
        b.append(&make_bytes(seq, len as usize))
    }
    fn null(b: &mut BinaryBuffer) {
        b.append_null()
    }
    fn clear(b: &mut BinaryBuffer) {
        b.clear()
    }
    fn cell(seq: u32, len: u32) -> Cell {
        Cell::Bytes(make_bytes(seq, len as usize))
    }
    fn encoder<S: BlockSink + Send + 'static>(
        e: Encoding,
        block: usize,
        nullable: bool,
    ) -> anyhow::Result<Box<dyn BlockEncoder<BinaryBuffer, S>>> {
        new_binary_encoder(e, block as u32, nullable)
    }
    fn decode(block: &[u8], nullable: bool, rows: usize) -> Result<Vec<Cell>, String> {
        decode_bin(block, nullable, rows)
    }
}

/// One step of a column's life.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Feed {
    /// encode these rows as one buffer; `reuse`: the buffer is the cleared previous one
    Batch { rows: Vec<Row>, reuse: bool },
    Flush,
}

pub struct Outcome {
    pub blocks: Vec<(u32, Vec<u8>)>,
    /// number of blocks after every flush
    pub flushes: Vec<usize>,
    /// (rows given, number of blocks) after every batch
    pub batches: Vec<(usize, usize)>,
    pub layout: Option<EncoderLayout>,
    /// an encode or flush call returned an error
    pub error: Option<String>,
    pub sink_failed: bool,
}

pub fn feed<K: Kind>(buf: &mut K::Buf, rows: &[Row]) {
    for r in rows {
        match r {
            Some((seq, len)) => K::push(buf, *seq, *len),
            None => K::null(buf),
        }
    }
}

pub fn total_rows(feeds: &[Feed]) -> Vec<Row> {
    feeds
        .iter()
        .flat_map(|f| match f {
            Feed::Batch { rows, .. } => rows.clone(),
            Feed::Flush => vec![],
        })
        .collect()
}

/// Executes the history on a fresh encoder. A final flush is not implied.
pub fn run<K: Kind>(
    block: usize,
    nullable: bool,
    feeds: &[Feed],
    suspend: bool,
    fail_at: Option<usize>,
) -> Result<Outcome, String> {
    let n: usize = feeds
        .iter()
        .map(|f| match f {
            Feed::Batch { rows, .. } => rows.len(),
            Feed::Flush => 1,
        })
        .sum();
    let mut sink = VSink {
        limit: n + 4,
        suspend,
        longer: suspend,
        fail_at,
        ..Default::default()
    };
    let mut enc = K::encoder::<VSink>(Encoding::Raw, block, nullable)
        .map_err(|e| format!("raw encoder refused: {}", e))?;
    let mut out = Outcome {
        blocks: vec![],
        flushes: vec![],
        batches: vec![],
        layout: None,
        error: None,
        sink_failed: false,
    };
    let mut buf = K::buf(nullable);
    let mut given = 0;
    for f in feeds {
        let r = match f {
            Feed::Batch { rows, reuse } => {
                if *reuse {
                    K::clear(&mut buf);
                } else {
                    buf = K::buf(nullable);
                }
                feed::<K>(&mut buf, rows);
                given += rows.len();
                let r = no_panic(|| drive(enc.encode(&buf, &mut sink)))
                    .map_err(|e| format!("encode of {} rows: {}", rows.len(), e))?;
                out.batches.push((given, sink.blocks.len()));
                r
            }
            Feed::Flush => match no_panic(|| drive(enc.flush(&mut sink)))
                .map_err(|e| format!("flush: {}", e))?
            {
                Ok(l) => {
                    out.layout = Some(l);
                    out.flushes.push(sink.blocks.len());
                    Ok(())
                }
                Err(e) => Err(e),
            },
        };
        if let Err(e) = r {
            out.error = Some(e.to_string());
            break;
        }
        if sink.failed {
            break;
        }
    }
    out.sink_failed = sink.failed;
    out.blocks = sink.blocks;
    if out.error.is_some() && !out.sink_failed {
        return Err(format!("unexpected error: {}", out.error.unwrap()));
    }
    Ok(out)
}

fn cells<K: Kind>(rows: &[Row]) -> Vec<Cell> {
    rows.iter()
        .map(|r| match r {
            Some((s, l)) => K::cell(*s, *l),
            None => Cell::Null,
        })
        .collect()
}

/// Reads all blocks back with the row ids they were indexed under.
pub fn decode_all<K: Kind>(
    blocks: &[(u32, Vec<u8>)],
    nullable: bool,
) -> Result<Vec<Cell>, String> {
    let mut got = vec![];
    for (i, (row_id, data)) in blocks.iter().enumerate() {
        let rows = (*row_id as usize + 1).checked_sub(got.len()).unwrap_or(0);
        if rows == 0 {
            return Err(format!("block {} of {}: row id {} is not increasing", i, blocks.len(), row_id));
        }
        if rows > 1 << 24 {
            return Err(format!("block {}: row id {}", i, row_id));
        }
        let c = K::decode(data, nullable, rows)
            .map_err(|e| format!("block {} of {} (row id {}): {}", i, blocks.len(), row_id, e))?;
        got.extend(c);
    }
    Ok(got)
}

fn lossless<K: Kind>(o: &Outcome, nullable: bool, rows: &[Row]) -> Result<(), String> {
    let got = decode_all::<K>(&o.blocks, nullable)?;
    diff("rows read back", &got, &cells::<K>(rows))
}

/// C08: derived from the data sections alone (which values a block holds), not from a full
/// decode: each block's row id must be the last row before the next block's first value.
fn row_ids<K: Kind>(o: &Outcome, nullable: bool, rows: &[Row]) -> Result<(), String> {
    let value_pos: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].is_some()).collect();
    let mut used = 0usize; // values
    let mut next_row = 0usize;
    for (i, (row_id, data)) in o.blocks.iter().enumerate() {
        let id = *row_id as usize;
        if id < next_row {
            return Err(format!("block {}: row id {} but {} rows precede the block", i, id, next_row));
        }
        if id >= rows.len() {
            return Err(format!("block {}: row id {} of {} rows", i, id, rows.len()));
        }
        let (d, rest) = data_part(data)?;
        let n = match K::WIDTH {
            Some(w) => d.len() / w,
            None if !nullable => id + 1 - next_row,
            None => {
                // number of valid rows in this block according to its row id
                rows[next_row..=id].iter().filter(|r| r.is_some()).count()
            }
        };
        if let Some(w) = K::WIDTH {
            if nullable {
                let bytes = ref_rle(rest)?.len();
                if bytes != (id + 1 - next_row + 7) / 8 {
                    return Err(format!(
                        "block {}: rows {}..={} but {} bytes of validity",
                        i, next_row, id, bytes
                    ));
                }
            }
            let _ = w;
        } else {
            // the bytes of those rows are exactly the data section
            let want: usize = rows[next_row..=id]
                .iter()
                .flatten()
                .map(|(s, l)| K::size(*s, *l))
                .sum();
            eq(&format!("block {} (rows {}..={}) data length", i, next_row, id), d.len(), want)?;
        }
        if used + n > value_pos.len() {
            return Err(format!("block {} holds more values than were appended", i));
        }
        // last row in [last value of this block, first value of the next block)
        if n > 0 && id < value_pos[used + n - 1] {
            return Err(format!(
                "block {}: row id {} precedes row {} stored in it",
                i,
                id,
                value_pos[used + n - 1]
            ));
        }
        if used + n < value_pos.len() && id >= value_pos[used + n] {
            return Err(format!(
                "block {}: row id {} covers row {} of a later block",
                i,
                id,
                value_pos[used + n]
            ));
        }
        used += n;
        next_row = id + 1;
    }
    eq("rows covered by the blocks", next_row, rows.len())
}

/// C09: every block not ended by a flush reaches the block size, and not before its last value.
fn block_sizes<K: Kind>(o: &Outcome, block: usize, rows: &[Row]) -> Result<(), String> {
    let sizes: Vec<usize> = rows.iter().flatten().map(|(s, l)| K::size(*s, *l)).collect();
    let flushes: HashSet<usize> = o.flushes.iter().cloned().collect();
    let mut used = 0;
    for (i, (row_id, data)) in o.blocks.iter().enumerate() {
        let (d, _) = data_part(data)?;
        let mut total = 0;
        let mut last = 0;
        // values of this block: those whose sizes add up to its data section
        while total < d.len() && used < sizes.len() {
            last = sizes[used];
            total += last;
            used += 1;
        }
        if total != d.len() {
            return Err(format!("block {} splits a value", i));
        }
        // trailing empty values belong to this block or the next: harmless for the bound
        let flushed = flushes.contains(&(i + 1));
        if d.len() < block && !flushed {
            return Err(format!(
                "block {} (row id {}) has {} data bytes, the block size is {}",
                i,
                row_id,
                d.len(),
                block
            ));
        }
        if d.len() >= block && total - last >= block {
            return Err(format!(
                "block {} has {} data bytes but reached the block size of {} earlier",
                i,
                d.len(),
                block
            ));
        }
        // a full block ends with a value that counts, where its row id says so consistently
        if d.len() >= block && !d.is_empty() && K::WIDTH.is_none() {
            let first = if i == 0 { 0 } else { o.blocks[i - 1].0 as usize + 1 };
            let covered = rows.get(first..=*row_id as usize).unwrap_or(&[]);
            let held: Vec<usize> = covered.iter().flatten().map(|(s, l)| K::size(*s, *l)).collect();
            if held.iter().sum::<usize>() == d.len() && held.last() == Some(&0) {
                return Err(format!("block {} (row id {}) takes empty values after it was full", i, row_id));
            }
        }
        if i > 0 && flushes.contains(&i) && d.is_empty() && *row_id == o.blocks[i - 1].0 {
            return Err(format!("block {} covers no rows", i));
        }
    }
    // no batch leaves a block's worth of rows behind
    let mut written = vec![0; o.blocks.len() + 1];
    for (i, b) in o.blocks.iter().enumerate() {
        written[i + 1] = written[i] + data_part(&b.1)?.0.len();
    }
    let mut upto = vec![0; rows.len() + 1];
    for (i, r) in rows.iter().enumerate() {
        upto[i + 1] = upto[i] + r.map_or(0, |(s, l)| K::size(s, l));
    }
    for (given, blocks) in &o.batches {
        let left = upto[*given] - written[*blocks].min(upto[*given]);
        if left >= block {
            return Err(format!(
                "{} data bytes are not in a block after row {} was given, the block size is {}",
                left, given, block
            ));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judge {
    Lossless,
    RowIds,
    Sizes,
    Batching,
}

fn judge<K: Kind>(
    j: Judge,
    block: usize,
    nullable: bool,
    feeds: &[Feed],
    o: &Outcome,
) -> Result<(), String> {
    let rows = total_rows(feeds);
    match j {
        Judge::Lossless => lossless::<K>(o, nullable, &rows),
        Judge::RowIds => row_ids::<K>(o, nullable, &rows),
        Judge::Sizes => block_sizes::<K>(o, block, &rows),
        Judge::Batching => {
            // same rows, same flush points, one buffer between flushes
            let mut one: Vec<Feed> = vec![];
            let mut acc: Vec<Row> = vec![];
            for f in feeds {
                match f {
                    Feed::Batch { rows, .. } => acc.extend(rows.iter().cloned()),
                    Feed::Flush => {
                        one.push(Feed::Batch {
                            rows: std::mem::take(&mut acc),
                            reuse: false,
                        });
                        one.push(Feed::Flush);
                    }
                }
            }
            if !acc.is_empty() {
                one.push(Feed::Batch { rows: acc, reuse: false });
            }
            let r = run::<K>(block, nullable, &one, false, None)
                .map_err(|e| format!("rows given as one buffer: {}", e))?;
            if r.blocks == o.blocks {
                return Ok(());
            }
            let ids = |b: &[(u32, Vec<u8>)]| {
                b.iter().map(|x| (x.0, x.1.len())).take(12).collect::<Vec<_>>()
            };
            Err(format!(
                "blocks (row id, bytes) {:?} differ from {:?} produced for the same rows in one buffer",
                ids(&o.blocks),
                ids(&r.blocks)
            ))
        }
    }
}

/// Every sequence of `depth` operations over {values, null, encode, flush}.
fn small<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let blocks: &'static [usize] = match K::WIDTH {
        Some(4) => &[1, 4, 5, 8, 12, 16],
        Some(_) => &[1, 8, 9, 16, 24],
        None => &[1, 2, 3, 5],
    };
    let lens: &'static [u32] = match K::WIDTH {
        Some(_) => &[0],
        None => &[0, 1, 3],
    };
    let depth = match (K::WIDTH.is_some(), nullable) {
        (true, true) => tier.of(9, 10),
        (true, false) => tier.of(10, 12),
        (false, true) => tier.of(7, 8),
        (false, false) => tier.of(8, 9),
    };
    out.push(Scenario::new(
        format!("{}-nullable={}-histories", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(blocks);
            let mut feeds: Vec<Feed> = vec![];
            let mut cur: Vec<Row> = vec![];
            let mut seq = 0;
            let nv = lens.len();
            let n_ops = nv + nullable as usize + 2;
            let mut reuse = false;
            for _ in 0..depth {
                let op = ctx.choose(n_ops);
                if op < nv {
                    cur.push(Some((seq, lens[op])));
                    seq += 1;
                } else if op == nv {
                    feeds.push(Feed::Batch { rows: std::mem::take(&mut cur), reuse });
                    reuse = !reuse;
                } else if op == nv + 1 {
                    // flush covers everything encoded so far; pending rows are encoded first
                    if !cur.is_empty() {
                        feeds.push(Feed::Batch { rows: std::mem::take(&mut cur), reuse });
                        reuse = !reuse;
                    }
                    feeds.push(Feed::Flush);
                } else {
                    cur.push(None);
                }
            }
            if !cur.is_empty() {
                feeds.push(Feed::Batch { rows: cur, reuse });
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
}

fn finish<K: Kind>(
    ctx: &mut Ctx,
    j: Judge,
    block: usize,
    nullable: bool,
    feeds: Vec<Feed>,
) -> Result<(), String> {
    ctx.step(|| {
        let f: Vec<String> = feeds
            .iter()
            .map(|f| match f {
                Feed::Batch { rows, .. } if rows.len() <= 12 => format!(
                    "encode[{}]",
                    rows.iter()
                        .map(|r| match r {
                            None => "null".to_string(),
                            Some((s, l)) if K::WIDTH.is_none() => format!("v{}:{}B", s, l),
                            Some((s, _)) => format!("v{}", s),
                        })
                        .collect::<Vec<_>>()
                        .join(" ")
                ),
                Feed::Batch { rows, .. } => format!(
                    "encode[{} rows, {} null]",
                    rows.len(),
                    rows.iter().filter(|r| r.is_none()).count()
                ),
                Feed::Flush => "flush".to_string(),
            })
            .collect();
        format!("{} nullable={} block_size={}: {}", K::NAME, nullable, block, f.join(" "))
    });
    ctx.steps(feeds.len() as u64);
    let o = run::<K>(block, nullable, &feeds, false, None)?;
    ctx.note(|| {
        format!(
            "-> blocks (row id, bytes): {:?}",
            o.blocks.iter().map(|b| (b.0, b.1.len())).take(20).collect::<Vec<_>>()
        )
    });
    ctx.state(&(block, nullable, K::NAME, &feeds));
    ctx.outcome(&(block, &o.blocks));
    judge::<K>(j, block, nullable, &feeds, &o)
}

pub fn bulk_rows(n: usize, pat: u8, lenpat: u8, seq: &mut u32) -> Vec<Row> {
    (0..n)
        .map(|i| {
            if pattern_valid(pat, i) {
                *seq += 1;
                let len = match lenpat {
                    0 => 3,
                    1 => (i % 7) as u32,
                    2 => if i % 50 == 49 { 300 } else { 0 },
                    _ => if i == n / 2 { 70_000 } else { 1 },
                };
                Some((*seq, len))
            } else {
                None
            }
        })
        .collect()
}

/// Large batches around every internal boundary (128-value packing chunks, 24-row RLE runs,
/// 8192-row bitmaps, varint sizes).
fn bulk<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let sizes: &'static [usize] = tier.of(
        &[0, 1, 31, 33, 127, 128, 129, 257, 1000],
        &[0, 1, 7, 8, 31, 32, 33, 127, 128, 129, 256, 257, 385, 1000, 4097],
    );
    let blocks: &'static [usize] = tier.of(&[16, 127, 512, 1024, 3000], &[4, 16, 127, 128, 512, 1024, 3000, 20_000]);
    let pats: &'static [u8] = if nullable { &[0, 1, 2, 4, 5] } else { &[0] };
    let lenpats: &'static [u8] = if K::WIDTH.is_none() { &[0, 1, 2] } else { &[0] };
    out.push(Scenario::new(
        format!("{}-nullable={}-bulk", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(blocks);
            let lp = ctx.pick(lenpats);
            let mut seq = 0;
            let mut feeds = vec![];
            for i in 0..2 {
                let rows = bulk_rows(ctx.pick(sizes), ctx.pick(pats), lp, &mut seq);
                feeds.push(Feed::Batch { rows, reuse: i == 1 });
                if i == 0 && ctx.choose(2) == 1 {
                    feeds.push(Feed::Flush);
                }
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
    let hsizes: &'static [usize] = tier.of(&[1, 8191, 8193, 40_000], &[1, 130, 8191, 8192, 8193, 20_000, 70_001]);
    let hblocks: &'static [usize] = tier.of(&[4096, 131_072], &[4096, 16_384, 65_536, 131_072, 1_000_000]);
    let hlen: &'static [u8] = if K::WIDTH.is_none() { &[0, 1, 3] } else { &[0] };
    out.push(Scenario::new(
        format!("{}-nullable={}-huge", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(hblocks);
            let lp = ctx.pick(hlen);
            let mut seq = 0;
            let mut feeds = vec![];
            for i in 0..2 {
                let rows = bulk_rows(ctx.pick(hsizes), ctx.pick(pats), lp, &mut seq);
                feeds.push(Feed::Batch { rows, reuse: i == 1 });
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
}

/// Sizes beyond every internal one: 16-bit row counts, values of megabytes.
fn giant<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let sizes: &'static [usize] = tier.of(&[1, 65_537, 200_003, 1_100_001], &[1, 32_769, 65_535, 65_536, 65_537, 200_003, 600_000, 1_100_001]);
    let blocks: &'static [usize] = tier.of(&[65_536, 1_000_000], &[16_384, 65_536, 131_072, 1_000_000, 1 << 24]);
    let pats: &'static [u8] = if nullable { &[1, 2, 4] } else { &[0] };
    out.push(Scenario::new(
        format!("{}-nullable={}-giant", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(blocks);
            let mut seq = 0;
            let mut feeds = vec![];
            for i in 0..2 {
                let rows = bulk_rows(ctx.pick(sizes), ctx.pick(pats), 2, &mut seq);
                feeds.push(Feed::Batch { rows, reuse: i == 1 });
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
    if K::WIDTH.is_none() {
        let lens: &'static [u32] = tier.of(
            &[0, 20_000, (1 << 20) + 1, (1 << 21) + 1],
            &[0, 20_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 5_000_011],
        );
        let n = 3;
        out.push(Scenario::new(
            format!("{}-nullable={}-giant-values", K::NAME, nullable),
            move |ctx| {
                let block = ctx.pick(&[1000usize, 131_072, 1 << 20, 3 << 20]);
                let mut rows = vec![];
                for i in 0..n {
                    if nullable && i > 0 && ctx.choose(2) == 1 {
                        rows.push(None);
                    }
                    rows.push(Some((i as u32, ctx.pick(lens))));
                }
                let split = ctx.choose(rows.len());
                let tail = rows.split_off(split);
                let mut feeds = vec![];
                if !rows.is_empty() {
                    feeds.push(Feed::Batch { rows, reuse: false });
                }
                feeds.push(Feed::Batch { rows: tail, reuse: true });
                feeds.push(Feed::Flush);
                finish::<K>(ctx, j, block, nullable, feeds)
            },
        ));
    }
}

/// Values somebody could treat differently, in every order.
fn special<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let depth = tier.of(3, 4);
    out.push(Scenario::new(format!("{}-nullable={}-special-values", K::NAME, nullable), move |ctx| {
        let block = ctx.pick(&[1usize, 20, 100_000]);
        let len = if K::WIDTH.is_none() { ctx.pick(&[1, 6, 300]) } else { 0 };
        let rows: Vec<Row> = (0..depth)
            .map(|_| match ctx.choose(SPECIALS as usize + nullable as usize) as u32 {
                k if k < SPECIALS => Some((SPECIAL + k, len)),
                _ => None,
            })
            .collect();
        finish::<K>(ctx, j, block, nullable, vec![Feed::Batch { rows, reuse: false }, Feed::Flush])
    }));
}

/// Runs of nulls, of one repeated value and of different ones around word boundaries, in one
/// buffer or cut in two anywhere relevant.
fn runs<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let lens: &'static [usize] = tier.of(&[1, 8, 31, 33, 64, 65, 300], &MORE_RUN_LENS);
    out.push(Scenario::new(
        format!("{}-nullable={}-runs", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(&[16usize, 257, 1024, 100_000]);
            let bin = K::WIDTH.is_none();
            // one value, different values, (empty values,) nulls
            let r = pick_runs(ctx, 3, 2 + bin as usize + nullable as usize, lens);
            let mut rows: Vec<Row> = vec![];
            for (k, n) in &r {
                for _ in 0..*n {
                    let i = rows.len() as u32;
                    rows.push(match k {
                        0 => Some((3, 4)),
                        1 => Some((i + 5, 1 + i % 9)),
                        2 if bin => Some((0, 0)),
                        _ => None,
                    });
                }
            }
            let first = r[0].1;
            let cut = ctx.pick(&[0, first, first + 1, rows.len() / 2]).min(rows.len());
            let tail = rows.split_off(cut);
            let mut feeds = vec![];
            if cut > 0 {
                feeds.push(Feed::Batch { rows, reuse: false });
            }
            feeds.push(Feed::Batch { rows: tail, reuse: true });
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
}

/// Many small batches: the carried-over remainder is extended many times.
fn drip<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let steps: &'static [usize] = tier.of(&[1, 2, 3, 7, 40, 200], &[1, 2, 3, 5, 7, 16, 40, 129, 200, 1000]);
    let blocks: &'static [usize] = &[4, 16, 100, 512, 2048];
    let pats: &'static [u8] = if nullable { &[0, 1, 2, 3, 4, 5] } else { &[0] };
    out.push(Scenario::new(
        format!("{}-nullable={}-drip", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(blocks);
            let (a, b) = (ctx.pick(steps), ctx.pick(steps));
            let (pa, pb) = (ctx.pick(pats), ctx.pick(pats));
            let lp = if K::WIDTH.is_none() { ctx.choose(3) as u8 } else { 0 };
            let mut seq = 0;
            let mut feeds = vec![];
            for k in 0..12 {
                let rows = if k % 2 == 0 {
                    bulk_rows(a, pa, lp, &mut seq)
                } else {
                    bulk_rows(b, pb, lp, &mut seq)
                };
                feeds.push(Feed::Batch { rows, reuse: k % 3 != 0 });
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        },
    ));
}

/// Very many small batches, with and without flushes between them.
fn many_batches<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let lives: &'static [(usize, usize)] = tier.of(
        &[(300, 0), (300, 1), (5000, 13), (70_000, 0), (70_000, 1)],
        &[(300, 0), (300, 1), (5000, 0), (5000, 1), (5000, 13), (70_000, 0), (70_000, 1), (70_000, 2), (70_000, 13), (300_000, 0), (300_000, 1)],
    );
    let blocks: &'static [usize] = tier.of(&[64, 100_000], &[16, 64, 1000, 100_000]);
    out.push(Scenario::new(format!("{}-nullable={}-many-batches", K::NAME, nullable), move |ctx| {
        let (n, every) = ctx.pick(lives);
        let block = ctx.pick(blocks);
        let p = if nullable { ctx.pick(&[2u8, 3]) } else { 0 };
        let fresh = n <= 5000 && ctx.choose(2) == 1;
        let mut seq = 0;
        let mut feeds = vec![];
        for i in 0..n {
            let rows = bulk_rows(i % 3, if i % 5 == 4 { p } else { 0 }, (i % 4 == 3) as u8, &mut seq);
            feeds.push(Feed::Batch { rows, reuse: !fresh });
            if every > 0 && i % every == 0 {
                feeds.push(Feed::Flush);
            }
        }
        feeds.push(Feed::Flush);
        finish::<K>(ctx, j, block, nullable, feeds)
    }));
}

/// Every number of rows in a batch, every block size, every length of a value.
fn every_size<K: Kind>(j: Judge, tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let sizes = sweep(tier.of(2600, 9000), tier.of(16, 18));
    out.push(Scenario::new(format!("{}-nullable={}-every-batch-size", K::NAME, nullable), move |ctx| {
        let n = ctx.pick(&sizes);
        let block = ctx.pick(&[100usize, 5000]);
        let p = if nullable { ctx.pick(&[1u8, 2, 4]) } else { 0 };
        let mut seq = 0;
        let mut feeds = vec![];
        for n in [3, n, 2] {
            let rows = bulk_rows(n, p, 1, &mut seq);
            feeds.push(Feed::Batch { rows, reuse: true });
        }
        feeds.push(Feed::Flush);
        finish::<K>(ctx, j, block, nullable, feeds)
    }));
    let sizes = sweep(tier.of(2600, 9000), tier.of(16, 18));
    out.push(Scenario::new(format!("{}-nullable={}-every-block-size", K::NAME, nullable), move |ctx| {
        let block = ctx.pick(&sizes).max(1);
        let p = if nullable { ctx.pick(&[1u8, 3]) } else { 0 };
        let lp = if K::WIDTH.is_none() { ctx.choose(2) as u8 } else { 0 };
        let per = K::WIDTH.unwrap_or(3);
        let n = block / per + 1;
        let mut seq = 0;
        let mut feeds = vec![];
        // more than two blocks at once, one that fills up from batch to batch, a short one
        for n in [2 * n + n / 2, n / 2 + 1, n / 3 + 1, 1] {
            let rows = bulk_rows(n, p, lp, &mut seq);
            feeds.push(Feed::Batch { rows, reuse: true });
        }
        feeds.push(Feed::Flush);
        finish::<K>(ctx, j, block, nullable, feeds)
    }));
    if K::WIDTH.is_none() {
        let lens = sweep(tier.of(2100, 9000), tier.of(18, 22));
        out.push(Scenario::new(format!("{}-nullable={}-every-length", K::NAME, nullable), move |ctx| {
            let n = ctx.pick(&lens) as u32;
            let block = ctx.pick(&[1usize, 700, 70_000]);
            let mut rows: Vec<Row> = vec![Some((1, 2)), Some((2, n)), Some((3, 0)), Some((4, n)), Some((5, 1))];
            if nullable {
                rows.insert(1, None);
                rows.insert(4, None);
            }
            let tail = rows.split_off(ctx.pick(&[0usize, 3]));
            let mut feeds = vec![];
            if !rows.is_empty() {
                feeds.push(Feed::Batch { rows, reuse: false });
            }
            feeds.push(Feed::Batch { rows: tail, reuse: true });
            feeds.push(Feed::Flush);
            finish::<K>(ctx, j, block, nullable, feeds)
        }));
        // Lengths of every bit width in blocks of every number of values, the
        // widest one first, last, or everywhere.
        let counts: Vec<usize> = (1..=tier.of(530, 2100)).collect();
        let wide: &'static [u32] = tier.of(
            &[1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 600, 1025, 2100, 5000, 9000, 17_000, 40_000, 70_000, 140_000],
            &[1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 600, 1025, 2100, 5000, 9000, 17_000, 40_000, 70_000, 140_000, 300_000, 600_000, 1_100_000],
        );
        out.push(Scenario::new(format!("{}-nullable={}-every-width", K::NAME, nullable), move |ctx| {
            let n = ctx.pick(&counts);
            let w = ctx.pick(wide);
            // everywhere only where that stays small
            let place = ctx.choose(if w <= 65 { 3 } else { 2 });
            let rows: Vec<Row> = (0..n)
                .map(|i| {
                    let here = match place {
                        0 => i + 1 == n,
                        1 => i == 0,
                        _ => true,
                    };
                    if nullable && i % 7 == 3 && !here {
                        None
                    } else {
                        Some((i as u32 + 1, if here { w } else { (i % 2) as u32 }))
                    }
                })
                .collect();
            let feeds = vec![Feed::Batch { rows, reuse: false }, Feed::Flush];
            finish::<K>(ctx, j, 1_000_000, nullable, feeds)
        }));
    }
}

/// The same rows in every partition into batches (C10), every flush-free history.
fn partitions<K: Kind>(tier: Tier, nullable: bool, out: &mut Vec<Scenario>) {
    let n = tier.of(8, 9);
    let lens: &'static [u32] = if K::WIDTH.is_none() { &[1, 0] } else { &[0] };
    let blocks: &'static [usize] = match K::WIDTH {
        Some(4) => &[4, 8, 12, 16],
        Some(_) => &[8, 16, 24],
        None => &[1, 2, 3],
    };
    out.push(Scenario::new(
        format!("{}-nullable={}-partitions", K::NAME, nullable),
        move |ctx| {
            let block = ctx.pick(blocks);
            let mut rows: Vec<Row> = vec![];
            for i in 0..n {
                let k = ctx.choose(lens.len() + nullable as usize);
                rows.push(if k < lens.len() { Some((i as u32, lens[k])) } else { None });
            }
            let mut feeds = vec![];
            let mut cur = vec![];
            let mut reuse = false;
            for (i, r) in rows.into_iter().enumerate() {
                cur.push(r);
                if i + 1 == n || ctx.choose(2) == 1 {
                    feeds.push(Feed::Batch { rows: std::mem::take(&mut cur), reuse });
                    reuse = !reuse;
                }
            }
            feeds.push(Feed::Flush);
            finish::<K>(ctx, Judge::Batching, block, nullable, feeds)
        },
    ));
}

/// A sink that suspends the encoder, and flushing twice, change nothing.
fn suspended<K: Kind>(j: Judge, nullable: bool, out: &mut Vec<Scenario>) {
    out.push(Scenario::new(
        format!("{}-nullable={}-suspended", K::NAME, nullable),
        move |ctx| {
            let mut seq = 0;
            let block = ctx.pick(&[8usize, 64]);
            let mut feeds = vec![];
            for _ in 0..2 {
                let (n, p) = (ctx.pick(&[0usize, 1, 5, 40]), ctx.pick(if nullable { &[0u8, 2, 4][..] } else { &[0][..] }));
                feeds.push(Feed::Batch { rows: bulk_rows(n, p, 1, &mut seq), reuse: false });
                for _ in 0..ctx.choose(3) {
                    feeds.push(Feed::Flush);
                }
            }
            feeds.push(Feed::Flush);
            ctx.step(|| format!("{} {:?}", block, feeds.len()));
            let o = run::<K>(block, nullable, &feeds, true, None)?;
            ctx.state(&(block, &feeds));
            ctx.outcome(&o.blocks);
            judge::<K>(j, block, nullable, &feeds, &o)
        },
    ));
}

fn all<K: Kind>(j: Judge, tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [false, true] {
        small::<K>(j, tier, nullable, out);
        suspended::<K>(j, nullable, out);
        drip::<K>(j, tier, nullable, out);
        runs::<K>(j, tier, nullable, out);
        bulk::<K>(j, tier, nullable, out);
        giant::<K>(j, tier, nullable, out);
        many_batches::<K>(j, tier, nullable, out);
        every_size::<K>(j, tier, nullable, out);
    }
}

fn judged(j: Judge, tier: Tier, prims: bool, bin: bool) -> Vec<Scenario> {
    let mut s = vec![];
    if prims {
        all::<I32>(j, tier, &mut s);
        all::<F64>(j, tier, &mut s);
        for nullable in [false, true] {
            small::<I64>(j, Tier::Quick, nullable, &mut s);
            small::<U64>(j, Tier::Quick, nullable, &mut s);
            for f in [drip::<I64>, bulk::<I64>, runs::<I64>, drip::<U64>, bulk::<U64>, runs::<U64>] {
                f(j, Tier::Quick, nullable, &mut s);
            }
            if j == Judge::Lossless {
                special::<I32>(j, tier, nullable, &mut s);
                special::<I64>(j, tier, nullable, &mut s);
                special::<U64>(j, tier, nullable, &mut s);
                special::<F64>(j, tier, nullable, &mut s);
            }
        }
    }
    if bin {
        all::<Bin>(j, tier, &mut s);
        if j == Judge::Lossless {
            special::<Bin>(j, tier, false, &mut s);
            special::<Bin>(j, tier, true, &mut s);
        }
    }
    // small histories of every kind first: the simplest violation is the clearest
    let rank = |n: &str| {
        ["histories", "suspended", "drip", "many-batches", "runs", "special-values", "bulk", "huge", "giant", "giant-values"]
            .iter()
            .position(|x| n.ends_with(x))
            .unwrap_or(9)
    };
    s.sort_by_key(|x| rank(&x.name));
    s
}

/// Looks at each block and lets it go.
#[derive(Default)]
struct Passing {
    /// rows a block has, but for the last one
    rows: u64,
    next: u64,
    blocks: u64,
    second: Option<Vec<u8>>,
    last: Vec<u8>,
    wrong: Option<String>,
}

#[async_trait]
impl BlockSink for Passing {
    async fn write_block(&mut self, row_id: u32, block: &[u8]) -> anyhow::Result<()> {
        let (i, first) = (self.blocks, self.next);
        self.blocks += 1;
        self.next += self.rows;
        self.last.clear();
        if self.wrong.is_some() {
            return Ok(());
        }
        // the first block and the last one are looked at elsewhere
        match &self.second {
            Some(s) if s.as_slice() != block => self.last.extend_from_slice(block),
            None if i == 1 => self.second = Some(block.to_vec()),
            _ => {}
        }
        if self.last.is_empty() && row_id as u64 + 1 != self.next {
            self.wrong = Some(format!("block {} with the rows {}..{} has row id {}", i, first, self.next, row_id));
        }
        Ok(())
    }
}

/// The life of a column until its row numbers need every bit they have.
fn long_lives(tier: Tier) -> Scenario {
    fn live<K: Kind>(ctx: &mut Ctx, nullable: bool, pat: u8, total: u64) -> Result<(), String> {
        const B: usize = 1 << 20;
        let lead = if pat == 0 { ctx.pick(&[0usize, 3]) } else { 0 };
        let mut seq = 0;
        let rows = bulk_rows(B, pat, 0, &mut seq);
        let size = |r: &[Row]| -> usize { r.iter().flatten().map(|v| K::size(v.0, v.1)).sum() };
        let block = size(&rows);
        ctx.step(|| format!("{} nullable={} pattern={} lead={} up to {} rows", K::NAME, nullable, pat, lead, total));
        ctx.state(&(K::NAME, nullable, pat, lead));
        let mut e = K::encoder::<Passing>(Encoding::Raw, block, nullable).map_err(|e| e.to_string())?;
        let mut sink = Passing { rows: B as u64, ..Default::default() };
        let mut buf = K::buf(nullable);
        let mut given = 0u64;
        let err = |e: anyhow::Error| e.to_string();
        if lead > 0 {
            feed::<K>(&mut buf, &rows[B - lead..]);
            given += lead as u64;
            drive(e.encode(&buf, &mut sink)).map_err(err)?;
            K::clear(&mut buf);
        }
        feed::<K>(&mut buf, &rows);
        while given + (B as u64) < total {
            no_panic(|| drive(e.encode(&buf, &mut sink)).map_err(err))
                .and_then(|r| r)
                .map_err(|e| format!("after {} rows: {}", given, e))?;
            given += B as u64;
            ctx.steps(1);
            if let Some(w) = sink.wrong {
                return Err(format!("after {} rows: {}", given, w));
            }
            if !sink.last.is_empty() {
                return Err(format!("after {} rows: block {} differs from the earlier ones", given, sink.blocks - 1));
            }
        }
        eq("full blocks", sink.blocks, given / B as u64)?;
        ctx.outcome(&(sink.blocks, sink.next, hash(&sink.second)));
        let want: Vec<Cell> = (0..B).map(|i| {
            match rows[(i + B - lead) % B] {
                None => Cell::Null,
                Some((s, l)) => K::cell(s, l),
            }
        }).collect();
        let second = sink.second.take().ok_or("no second block")?;
        diff("rows of a block", &K::decode(&second, nullable, B)?, &want)
    }
    Scenario::new("billions-of-rows", move |ctx| {
        let deep = tier.thorough();
        // past the sign bit, and as far as row ids go
        let (most, some) = if deep { ((1u64 << 32) - 1, (1 << 31) + (1 << 22)) } else { ((1 << 31) + (1 << 22), 1 << 25) };
        match ctx.choose(5) {
            0 => live::<I32>(ctx, false, 0, most),
            1 => live::<I32>(ctx, true, 3, some),
            2 => live::<F64>(ctx, false, 0, some),
            3 => live::<Bin>(ctx, false, 0, some),
            _ => live::<Bin>(ctx, true, 3, some),
        }
    })
}

/// A batch of almost 4 GiB, whose offsets need every bit they have.
struct Vast {
    buf: BinaryBuffer,
    lens: Vec<u32>,
}

/// Looks at the blocks of such a batch and lets them go.
struct VastSink {
    batch: Arc<Vast>,
    judge: Judge,
    block: usize,
    /// rows before the batch, of one byte each
    lead: usize,
    /// values and bytes written, those before the batch included
    values: usize,
    bytes: u64,
    flushing: bool,
    wrong: Option<String>,
}

impl VastSink {
    fn len(&self, value: usize) -> Option<usize> {
        if value < self.lead {
            return Some(1);
        }
        self.batch.lens.get(value - self.lead).map(|l| *l as usize)
    }

    fn look(&mut self, row_id: u32, block: &[u8]) -> Result<(), String> {
        let (d, rest) = data_part(block)?;
        let (first, at) = (self.values, self.bytes);
        let mut lens = vec![];
        let mut total = 0;
        while total < d.len() {
            let l = self.len(self.values).ok_or("more bytes than were given")?;
            total += l;
            lens.push(l as u32);
            self.values += 1;
        }
        self.bytes += total as u64;
        if total != d.len() {
            return Err(format!("a block of {} bytes splits value {}", d.len(), self.values - 1));
        }
        match self.judge {
            Judge::Lossless => {
                let lead = (self.lead as u64).saturating_sub(at) as usize;
                let from = (at + lead as u64 - self.lead as u64) as usize;
                if d[..lead].iter().any(|b| *b != 0xA5) || d[lead..] != self.batch.buf.data()[from..from + total - lead] {
                    return Err(format!("values {}..{} have other bytes", first, self.values));
                }
                let (bits, packed) = rest.split_first().ok_or("no item length section")?;
                eq("item lengths of a block", ref_unpack(packed, lens.len(), *bits as usize)?, lens)
            }
            Judge::Sizes => {
                if d.len() < self.block && !self.flushing {
                    return Err(format!("a block of {} bytes, the block size is {}", d.len(), self.block));
                }
                let last = *lens.last().unwrap_or(&0) as usize;
                if total - last >= self.block {
                    return Err(format!("a block of {} bytes was full before its last value of {}", total, last));
                }
                Ok(())
            }
            _ => eq("row id", row_id as usize + 1, self.values),
        }
    }
}

#[async_trait]
impl BlockSink for VastSink {
    async fn write_block(&mut self, row_id: u32, block: &[u8]) -> anyhow::Result<()> {
        if self.wrong.is_none() {
            let (v, b) = (self.values, self.bytes);
            self.wrong = self.look(row_id, block).err().map(|e| format!("after {} values, {} bytes: {}", v, b, e));
        }
        Ok(())
    }
}

fn vast_batch(j: Judge, tier: Tier) -> Scenario {
    Scenario::new("binary-batch-of-4-gib", move |ctx| {
        if available_memory() < 14 << 20 {
            ctx.note(|| "not enough memory".into());
            return Ok(());
        }
        let mut v = Vast { buf: BinaryBuffer::new(false), lens: vec![] };
        let mut left = u32::MAX as usize;
        let mut value = vec![];
        for len in [9_000_001usize, 700_001, 131_072, 100, 1] {
            while left >= len {
                let i = v.lens.len();
                value.clear();
                value.resize(len, (i * 37 + 11) as u8);
                v.buf.append(&value);
                v.lens.push(len as u32);
                left -= len;
            }
        }
        let v = Arc::new(v);
        let mut lead = BinaryBuffer::new(false);
        (0..100).for_each(|_| lead.append(&[0xA5]));
        let ways: &[(usize, usize)] = tier.of(
            &[(131_072, 100), (1 << 26, 0)],
            &[(131_072, 100), (1 << 26, 0), (1, 0), (9_000_001, 100), (9_000_002, 0), (1 << 30, 100), (3_000_000_000, 0)],
        );
        for (block, lead_rows) in ways {
            ctx.step(|| format!("{} values before {} values of {} bytes together, block size {}", lead_rows, v.lens.len(), v.buf.data().len(), block));
            ctx.steps(3);
            ctx.state(&(block, lead_rows));
            let mut sink = VastSink {
                batch: v.clone(),
                judge: j,
                block: *block,
                lead: *lead_rows,
                values: 0,
                bytes: 0,
                flushing: false,
                wrong: None,
            };
            let mut e = Bin::encoder::<VastSink>(Encoding::Raw, *block, false).map_err(|e| e.to_string())?;
            if *lead_rows > 0 {
                no_panic(|| drive(e.encode(&lead, &mut sink)))?.map_err(|e| e.to_string())?;
            }
            no_panic(|| drive(e.encode(&v.buf, &mut sink)))?.map_err(|e| e.to_string())?;
            let left = (*lead_rows + v.buf.data().len()) as u64 - sink.bytes;
            if j == Judge::Sizes && sink.wrong.is_none() && left >= *block as u64 {
                return Err(format!("{} bytes are not in a block, the block size is {}", left, block));
            }
            sink.flushing = true;
            no_panic(|| drive(e.flush(&mut sink)))?.map_err(|e| e.to_string())?;
            if let Some(w) = sink.wrong {
                return Err(w);
            }
            ctx.outcome(&(block, sink.values));
            eq("values", sink.values, v.lens.len() + lead_rows)?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C20

const ENCODINGS: [Encoding; 5] = [
    Encoding::Raw,
    Encoding::BitPacked,
    Encoding::DeltaBinaryPacked,
    Encoding::RleDictionary,
    Encoding::Snappy,
];

fn accepted<K: Kind>(out: &mut Vec<Scenario>) {
    out.push(Scenario::new(format!("{}-encodings", K::NAME), move |ctx| {
        let enc = ctx.pick(&ENCODINGS);
        let nullable = ctx.choose(2) == 1;
        let block = ctx.pick(&[1usize, 16, 128, 131_072]);
        let n = ctx.pick(&[0usize, 1, 2, 40, 300]);
        let pat = if nullable { ctx.choose(4) as u8 } else { 0 };
        let batches = 1 + ctx.choose(2);
        ctx.step(|| format!("{} {:?} nullable={} block={} rows={}", K::NAME, enc, nullable, block, n));
        ctx.state(&(enc as i32, nullable, block, n, pat, batches));
        let mut e = match K::encoder::<VSink>(enc, block, nullable) {
            Err(_) => {
                ctx.outcome(&(enc as i32, "refused"));
                return if enc == Encoding::Raw {
                    Err("the raw encoding was refused".into())
                } else {
                    Ok(())
                };
            }
            Ok(e) => e,
        };
        let mut sink = VSink { limit: 2 * n + 8, ..Default::default() };
        let mut rows = vec![];
        let mut seq = 0;
        for _ in 0..batches {
            let r = bulk_rows(n, pat, 1, &mut seq);
            let mut b = K::buf(nullable);
            feed::<K>(&mut b, &r);
            no_panic(|| drive(e.encode(&b, &mut sink)))?.map_err(|e| e.to_string())?;
            rows.extend(r);
        }
        let layout = no_panic(|| drive(e.flush(&mut sink)))?.map_err(|e| e.to_string())?;
        let want = match enc {
            Encoding::Raw => "Plain",
            Encoding::Snappy => "Snappy",
            _ => return Err(format!("{:?} was accepted for {} data", enc, K::NAME)),
        };
        if !format!("{:?}", layout).starts_with(want) {
            return Err(format!("{:?} reported the layout {:?}", enc, layout));
        }
        ctx.outcome(&(enc as i32, &sink.blocks));
        if enc == Encoding::Snappy
            && is_known("snappy")
            && sink.blocks.len() == batches
            && sink.blocks.iter().all(|b| b.0 == 43243 && b.1 == b"snappy")
        {
            ctx.known(
                "snappy",
                "the Snappy encoding is accepted for binary columns but every buffer is replaced by the bytes \"snappy\" under row id 43243".into(),
            );
            return Ok(());
        }
        if enc == Encoding::Snappy {
            // no format is documented: at the very least the rows must be accounted for
            return match sink.blocks.last() {
                None if rows.is_empty() => Ok(()),
                Some(b) if b.0 as usize + 1 == rows.len() => Ok(()),
                l => Err(format!("Snappy: {} rows but the last block is {:?}", rows.len(), l)),
            };
        }
        diff(
            "rows read back",
            &decode_all::<K>(&sink.blocks, nullable)?,
            &cells::<K>(&rows),
        )
    }));
}

// ---------------------------------------------------------------- C11

type Life = Pin<Box<dyn Future<Output = Result<VSink, String>>>>;

/// The life of one encoder: its rows in `parts` batches, then a flush; it waits before each
/// batch and before each block is written.
fn life<K: Kind>(rows: &[Row], parts: usize, block: usize, nullable: bool) -> Life {
    let rows = rows.to_vec();
    Box::pin(async move {
        let mut sink = VSink { limit: 200, suspend: true, ..Default::default() };
        let mut e = K::encoder::<VSink>(Encoding::Raw, block, nullable).map_err(|e| e.to_string())?;
        for part in rows.chunks((rows.len() + parts - 1) / parts) {
            let mut b = K::buf(nullable);
            feed::<K>(&mut b, part);
            Yield(true).await;
            e.encode(&b, &mut sink).await.map_err(|e| e.to_string())?;
        }
        e.flush(&mut sink).await.map_err(|e| e.to_string())?;
        Ok(sink)
    })
}

fn alone<K: Kind>(rows: &[Row], block: usize, nullable: bool) -> Result<Vec<(u32, Vec<u8>)>, String> {
    let f = [Feed::Batch { rows: rows.to_vec(), reuse: false }, Feed::Flush];
    Ok(run::<K>(block, nullable, &f, false, None)?.blocks)
}

/// Runs the lives in every order of their steps; each must end with the blocks it has alone.
fn interleave(ctx: &mut Ctx, what: impl std::hash::Hash, lives: Vec<(Life, Vec<(u32, Vec<u8>)>)>) -> Result<(), String> {
    let (mut lives, solo): (Vec<Option<Life>>, Vec<_>) = lives.into_iter().map(|(l, s)| (Some(l), s)).unzip();
    let mut ended: Vec<Option<VSink>> = lives.iter().map(|_| None).collect();
    let w: Waker = Arc::new(Noop).into();
    let mut cx = Context::from_waker(&w);
    let mut trace: Vec<usize> = vec![];
    loop {
        let going: Vec<usize> = (0..lives.len()).filter(|i| lives[*i].is_some()).collect();
        if going.is_empty() {
            break;
        }
        let i = if going.len() == 1 { going[0] } else { ctx.pick(&going) };
        trace.push(i);
        if let Poll::Ready(r) = lives[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            ended[i] = Some(r?);
            lives[i] = None;
        }
        if trace.len() > 10_000 {
            return Err("the encoders do not finish".into());
        }
    }
    ctx.steps(trace.len() as u64);
    ctx.step(|| format!("schedule {:?}", trace));
    ctx.state(&(hash(&what), &trace));
    for (i, (e, s)) in ended.iter().zip(&solo).enumerate() {
        let b = &e.as_ref().unwrap().blocks;
        ctx.outcome(&(i, b));
        diff(&format!("blocks of encoder {}", i), b, s)?;
    }
    Ok(())
}

/// Two encoders whose executions are interleaved at every sink write in every order.
fn interleaved<A: Kind, B: Kind>(tier: Tier, out: &mut Vec<Scenario>) {
    let n = tier.of(4, 6);
    for nullable in [false, true] {
        let null = move |ctx: &mut Ctx| if nullable { ctx.pick(&[0u8, 3]) } else { 0 };
        out.push(Scenario::new(
            format!("{}+{}-nullable={}-interleaved", A::NAME, B::NAME, nullable),
            move |ctx| {
                let (mut sa, mut sb) = (0, 1000);
                let ra = bulk_rows(ctx.pick(&[1usize, n, 2 * n, 3 * n]), null(ctx), 0, &mut sa);
                let rb = bulk_rows(ctx.pick(&[1usize, n, 2 * n, 3 * n]), null(ctx), 0, &mut sb);
                let (ba, bb) = (2 * A::WIDTH.unwrap_or(3), 2 * B::WIDTH.unwrap_or(3));
                let lives = vec![
                    (life::<A>(&ra, 2, ba, nullable), alone::<A>(&ra, ba, nullable)?),
                    (life::<B>(&rb, 2, bb, nullable), alone::<B>(&rb, bb, nullable)?),
                ];
                interleave(ctx, (&ra, &rb), lives)
            },
        ));
        // the same with blocks of the usual size
        out.push(Scenario::new(
            format!("{}+{}-nullable={}-large-interleaved", A::NAME, B::NAME, nullable),
            move |ctx| {
                let (mut sa, mut sb) = (0, 1_000_000);
                let sizes: &[usize] = tier.of(&[20_003], &[9_000, 20_003, 70_001]);
                let lp = ctx.pick(&[0u8, 3]);
                let ra = bulk_rows(ctx.pick(sizes), null(ctx), lp, &mut sa);
                let rb = bulk_rows(ctx.pick(sizes) - 3_001, null(ctx), lp, &mut sb);
                let per = ctx.pick(&[6_000usize, 70_000]);
                let (ba, bb) = (per * A::WIDTH.unwrap_or(3), per * B::WIDTH.unwrap_or(3));
                let parts = 1 + ctx.choose(2);
                let lives = vec![
                    (life::<A>(&ra, 1, ba, nullable), alone::<A>(&ra, ba, nullable)?),
                    (life::<B>(&rb, parts, bb, nullable), alone::<B>(&rb, bb, nullable)?),
                ];
                interleave(ctx, (lp, per, parts, ra.len(), rb.len(), hash(&ra), hash(&rb)), lives)
            },
        ));
        // three at once
        out.push(Scenario::new(
            format!("{}+{}+{}-nullable={}-interleaved", A::NAME, B::NAME, A::NAME, nullable),
            move |ctx| {
                let (mut sa, mut sb, mut sc) = (0, 1000, 2000);
                let (few, more) = tier.of((1, 3), (2, 4));
                let p = null(ctx);
                let ra = bulk_rows(ctx.pick(&[1, more]), p, 0, &mut sa);
                let rb = bulk_rows(few, p, 0, &mut sb);
                let rc = bulk_rows(ctx.pick(&[1, more]), p, 0, &mut sc);
                let (ba, bb) = (2 * A::WIDTH.unwrap_or(3), 2 * B::WIDTH.unwrap_or(3));
                let lives = vec![
                    (life::<A>(&ra, 1, ba, nullable), alone::<A>(&ra, ba, nullable)?),
                    (life::<B>(&rb, 1, bb, nullable), alone::<B>(&rb, bb, nullable)?),
                    (life::<A>(&rc, 1, ba, nullable), alone::<A>(&rc, ba, nullable)?),
                ];
                interleave(ctx, (&ra, &rb, &rc), lives)
            },
        ));
    }
}

// ---------------------------------------------------------------- sink failures (C13)

pub fn sink_failures(tier: Tier, out: &mut Vec<Scenario>) {
    fn one<K: Kind>(tier: Tier, out: &mut Vec<Scenario>) {
        for nullable in [false, true] {
            out.push(Scenario::new(
                format!("{}-nullable={}-sink-failure", K::NAME, nullable),
                move |ctx| {
                    let block = 2 * K::WIDTH.unwrap_or(3);
                    let mut seq = 0;
                    let mut feeds = vec![];
                    for _ in 0..2 {
                        let p = if nullable { ctx.choose(3) as u8 } else { 0 };
                        let n = ctx.choose(tier.of(8, 14));
                        feeds.push(Feed::Batch { rows: bulk_rows(n, p, 0, &mut seq), reuse: false });
                        if ctx.choose(2) == 1 {
                            feeds.push(Feed::Flush);
                        }
                    }
                    feeds.push(Feed::Flush);
                    let clean = run::<K>(block, nullable, &feeds, false, None)?;
                    if clean.blocks.is_empty() {
                        return Ok(());
                    }
                    let k = ctx.choose(clean.blocks.len());
                    let suspend = ctx.choose(2) == 1;
                    let o = run::<K>(block, nullable, &feeds, suspend, Some(k))?;
                    ctx.step(|| format!("{} feeds, block write {} of {} refused", feeds.len(), k, clean.blocks.len()));
                    ctx.state(&(&feeds, k, suspend));
                    ctx.outcome(&(k, &o.error));
                    if o.sink_failed && o.error.is_none() {
                        return Err(format!("the sink refused block {} but the encoder reported success", k));
                    }
                    eq("blocks accepted before the failure", o.blocks.len(), k)
                },
            ));
        }
    }
    // refusals late in a long life, and a sink that keeps refusing
    fn late<K: Kind>(tier: Tier, out: &mut Vec<Scenario>) {
        for nullable in [false, true] {
            out.push(Scenario::new(
                format!("{}-nullable={}-late-sink-failure", K::NAME, nullable),
                move |ctx| {
                    let block = ctx.pick(tier.of(&[64usize, 1024], &[16, 64, 128, 1024, 5000]));
                    let rows = ctx.pick(tier.of(&[1100usize, 6000], &[500, 1100, 6000, 20_000]));
                    let batches = ctx.pick(&[1usize, 4]);
                    let p = if nullable { ctx.pick(&[1u8, 2]) } else { 0 };
                    let mut seq = 0;
                    let mut feeds = vec![];
                    for i in 0..batches {
                        feeds.push(Feed::Batch { rows: bulk_rows(rows / batches, p, 0, &mut seq), reuse: i % 2 == 1 });
                        if i == 1 {
                            feeds.push(Feed::Flush);
                        }
                    }
                    feeds.push(Feed::Flush);
                    let clean = run::<K>(block, nullable, &feeds, false, None)?;
                    let n = clean.blocks.len();
                    let mut at: Vec<usize> = (0..n).collect();
                    // around powers of two, thirds and the ends when there are too many
                    let limit = tier.of(40, 200);
                    if n > limit {
                        at = (0..limit).map(|i| i * (n - 1) / (limit - 1)).collect();
                    }
                    if at.is_empty() {
                        return Ok(());
                    }
                    let k = ctx.pick(&at);
                    let o = run::<K>(block, nullable, &feeds, false, Some(k))?;
                    ctx.step(|| format!("block {} rows {} in {} pattern {}, block write {} of {} refused", block, rows, batches, p, k, n));
                    ctx.state(&(block, rows, batches, p, k));
                    ctx.outcome(&(k, &o.error));
                    if o.sink_failed && o.error.is_none() {
                        return Err(format!("the sink refused block {} but the encoder reported success", k));
                    }
                    eq("blocks accepted before the failure", o.blocks.len(), k)
                },
            ));
        }
    }
    one::<I32>(tier, out);
    one::<I64>(tier, out);
    one::<U64>(tier, out);
    one::<F64>(tier, out);
    one::<Bin>(tier, out);
    late::<I32>(tier, out);
    late::<I64>(tier, out);
    late::<U64>(tier, out);
    late::<F64>(tier, out);
    late::<Bin>(tier, out);
}

const ASSUME: &[&str] = &[
    "block_size >= 1; fewer than 2^24 rows (C08: fewer than 2^32)",
    "values come from a fixed per-position alphabet of bit patterns",
];

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    let rule = "every history of up to the stated depth over {append value (several lengths), append null, encode the buffer (fresh or cleared and reused), flush} x block sizes, plus every combination of bulk batches around the 8/24/128/256/8192-row and varint boundaries; each history is executed on the real encoder with a recording sink and the blocks are judged against the appended rows; a state is a distinct history prefix set, an outcome a distinct block list";
    let mk = |id, scenarios| {
        Some(Check {
            id,
            level: "model_checking",
            rule,
            assumptions: ASSUME.to_vec(),
            scenarios,
        })
    };
    match id {
        "C06" => mk("C06", judged(Judge::Lossless, tier, true, false)),
        "C07" => {
            let mut s = judged(Judge::Lossless, tier, false, true);
            s.push(vast_batch(Judge::Lossless, tier));
            mk("C07", s)
        }
        "C08" => {
            let mut s = judged(Judge::RowIds, tier, true, true);
            s.push(long_lives(tier));
            s.push(vast_batch(Judge::RowIds, tier));
            mk("C08", s)
        }
        "C09" => {
            let mut s = judged(Judge::Sizes, tier, true, true);
            s.push(vast_batch(Judge::Sizes, tier));
            #[cfg(feature = "seg")]
            s.extend(crate::seg::block_size_scenarios(tier));
            mk("C09", s)
        }
        "C10" => {
            let mut s = vec![];
            for nullable in [false, true] {
                partitions::<I32>(tier, nullable, &mut s);
                partitions::<F64>(tier, nullable, &mut s);
                partitions::<Bin>(tier, nullable, &mut s);
            }
            s.extend(judged(Judge::Batching, tier, true, true));
            mk("C10", s)
        }
        "C11" => {
            let mut s = vec![];
            interleaved::<Bin, Bin>(tier, &mut s);
            interleaved::<I32, I32>(tier, &mut s);
            interleaved::<I64, Bin>(tier, &mut s);
            interleaved::<F64, U64>(tier, &mut s);
            #[cfg(feature = "seg")]
            s.extend(crate::seg::interleaved_segments(tier));
            // anything shared by accident must be shared by the two writers only
            let s = s.into_iter().map(|s| s.isolated()).collect();
            Some(Check {
                id: "C11",
                level: "model_checking",
                rule: "every interleaving, at every suspension point, of two and three encoders and of two segment writers over several inputs, and of segment writers on threads stopped at every file system call (bounded preemptions); each must produce exactly what it produces alone",
                assumptions: vec!["switching happens at suspension points (block writes) and file system calls; the code holds no locks and no shared memory between instances"],
                scenarios: s,
            })
        }
        "C20" => {
            let mut s = vec![];
            accepted::<I32>(&mut s);
            accepted::<I64>(&mut s);
            accepted::<U64>(&mut s);
            accepted::<F64>(&mut s);
            accepted::<Bin>(&mut s);
            #[cfg(feature = "seg")]
            s.extend(crate::seg::column_encodings(tier));
            Some(Check {
                id: "C20",
                level: "model_checking",
                rule: "every (column kind, encoding, nullability, block size, row count, null pattern, batching) combination: either the constructor refuses the encoding or the rows written are read back and the reported layout matches the encoding",
                assumptions: ASSUME.to_vec(),
                scenarios: s,
            })
        }
        _ => None,
    }
}
