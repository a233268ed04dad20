//! C16..C19, C22 and the segment parts of C09, C11, C13, C20: whole segments written through
//! `SegmentWriter` on the real file system (observed by the shim) and read back by an
//! independent reader of both files.

use std::collections::{BTreeMap, HashMap};
use std::task::Poll;

use libc::{EIO, ENOSPC};
use uuid::Uuid;

use crate::codec::ref_varint;
use crate::enc::*;
use crate::explore::*;
use crate::rt::*;
use crate::shim::*;
use crate::store::verif::metadata::{ColumnType, Encoding, IndexType};
use crate::store::verif::segment::{self, ColumnInfo, SegmentInfo, SegmentWriter};
use crate::util::*;
use crate::{Check, Tier};

// ---------------------------------------------------------------- plans

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Col {
    name: String,
    ty: i32,
    enc: i32,
    idx: i32,
    nullable: bool,
    batches: Vec<Vec<Row>>,
    /// its writer is dropped without being closed
    left: bool,
}

#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Plan {
    id: [u8; 16],
    db: String,
    table: String,
    shard: u32,
    rows: u32,
    cols: Vec<Col>,
}

fn col(name: &str, nullable: bool, batches: Vec<Vec<Row>>) -> Col {
    Col { name: name.into(), ty: 8, enc: 0, idx: 0, nullable, batches, left: false }
}

fn plan(id: u8, cols: Vec<Col>) -> Plan {
    let rows = cols.first().map_or(0, |c| c.batches.iter().map(|b| b.len() as u32).sum());
    Plan { id: [id; 16], db: "db".into(), table: "tab".into(), shard: 3, rows, cols }
}

fn uuid_of(id: &[u8; 16]) -> Uuid {
    Uuid::from_bytes(*id)
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

/// Unpadded URL-safe base64, written independently of the base64 crate.
pub fn b64(id: &[u8; 16]) -> String {
    let mut bits = String::new();
    for b in id {
        bits.push_str(&format!("{:08b}", b));
    }
    while bits.len() % 6 != 0 {
        bits.push('0');
    }
    (0..bits.len() / 6)
        .map(|i| B64[usize::from_str_radix(&bits[6 * i..6 * i + 6], 2).unwrap()] as char)
        .collect()
}

fn name_of(id: &[u8; 16]) -> (String, String) {
    (format!("{}.dat", b64(id)), format!("{}.idx", b64(id)))
}

// ---------------------------------------------------------------- writing

#[derive(Default, Clone)]
pub struct ColOut {
    /// (data, index) positions before and after the column
    start: (u64, u64),
    end: (u64, u64),
    entries: Vec<(u32, u64)>,
    /// the writer refused the column, or was left without closing it
    refused: bool,
}

#[derive(Default, Clone)]
pub struct Out {
    cols: Vec<ColOut>,
    /// positions when closed
    closed: (u64, u64),
    /// content of the (data, index) files when close had returned
    at_close: Option<(Vec<u8>, Vec<u8>)>,
}

/// A scheduling point between operations (see `interleaved_segments`).
#[derive(Clone, Copy)]
pub enum Point<'a> {
    No,
    Turn(&'a std::cell::Cell<bool>),
    Hold(&'a Session),
}

async fn point(p: Point<'_>) {
    match p {
        Point::No => {}
        Point::Turn(c) => {
            c.set(true);
            Yield(true).await;
        }
        Point::Hold(s) => s.hold("", "between operations"),
    }
}

/// Leaves older files under the names of the segment: garbage of some size, or another
/// segment with the same id.
fn stale(ctx: &mut Ctx, d: &Dir, p: &Plan) -> Result<(), String> {
    let (dat, idx) = name_of(&p.id);
    let sizes: &[usize] = &[1, 13, 30, 65, 700, 4097, 300_000];
    let k = ctx.choose(2 + sizes.len());
    ctx.step(|| format!("older files: kind {}", k));
    ctx.state(&(p, k));
    if k < sizes.len() {
        raw_write(&d.file(&dat), &vec![0xEE; sizes[k]]);
        raw_write(&d.file(&idx), &vec![0xEE; sizes[sizes.len() - 1 - k]]);
    } else {
        // an earlier segment with more or with other columns
        let mut q = p.clone();
        let mut seq = 9000;
        q.table = "older".into();
        q.cols.push(col("older", true, vec![shape(if k == sizes.len() { 3 } else { 6 }, true, &mut seq)]));
        written(d, &q)?;
        d.s.take_log();
    }
    Ok(())
}

/// Storage that takes its time: both files alike, or one of them only.
const SLOW: &[&[(&str, u64)]] = &[&[("", 1_500)], &[(".dat", 8_000)], &[(".idx", 8_000)]];

async fn write_segment(
    s: Option<&Session>,
    dir: impl AsRef<std::path::Path>,
    p: &Plan,
    pt: Point<'_>,
) -> Result<Out, String> {
    let dir = dir.as_ref();
    let e = |x: anyhow::Error| format!("{:#}", x);
    let mut out = Out::default();
    let mut w = SegmentWriter::new(
        dir,
        SegmentInfo {
            segment_id: uuid_of(&p.id),
            database_name: p.db.clone(),
            table_name: p.table.clone(),
            shard_id: p.shard,
            num_rows: p.rows,
        },
    )
    .await
    .map_err(|x| format!("new: {}", e(x)))?;
    point(pt).await;
    for c in &p.cols {
        let mut o = ColOut { start: segment::positions(&w), ..Default::default() };
        {
            let info = ColumnInfo {
                name: c.name.clone(),
                column_type: ColumnType::from_i32(c.ty).unwrap(),
                encoding: Encoding::from_i32(c.enc).unwrap(),
                index_type: IndexType::from_i32(c.idx).unwrap(),
                nullable: c.nullable,
            };
            match w.new_binary_column_writer(info) {
                Err(_) if c.enc != 0 => o.refused = true,
                Err(x) => return Err(format!("column {}: {}", c.name, e(x))),
                Ok(mut cw) => {
                    for b in &c.batches {
                        let mut buf = Bin::buf(c.nullable);
                        feed::<Bin>(&mut buf, b);
                        cw.write(&buf).await.map_err(|x| format!("write: {}", e(x)))?;
                        point(pt).await;
                    }
                    if c.left {
                        o.refused = true;
                    } else {
                        cw.close().await.map_err(|x| format!("column close: {}", e(x)))?;
                    }
                    point(pt).await;
                }
            }
        }
        if !o.refused {
            o.entries = segment::block_entries(&w);
        }
        o.end = segment::positions(&w);
        out.cols.push(o);
    }
    segment::close(&mut w).await.map_err(|x| format!("close: {}", e(x)))?;
    out.closed = segment::positions(&w);
    if let Some(s) = s {
        s.mark("close");
    }
    // on fast storage whatever is still under way would show or not by chance
    if s.map_or(false, |s| !s.st.lock().unwrap().slow.is_empty()) {
        let (dat, idx) = name_of(&p.id);
        out.at_close = Some((
            raw_read(&format!("{}/{}", dir.display(), dat))?,
            raw_read(&format!("{}/{}", dir.display(), idx))?,
        ));
    }
    point(pt).await;
    segment::sync(w).await.map_err(|x| format!("sync: {}", e(x)))?;
    if let Some(s) = s {
        s.mark("sync");
    }
    Ok(out)
}

pub fn write_plan(d: &Dir, p: &Plan) -> Result<Result<Out, String>, String> {
    no_panic(|| block_on(write_segment(Some(&d.s), &d.path, p, Point::No)))
}

fn written(d: &Dir, p: &Plan) -> Result<Out, String> {
    write_plan(d, p)?.map_err(|e| format!("writing the segment failed: {}", e))
}

// ---------------------------------------------------------------- reading

/// A protobuf message: (field number, value).
#[derive(Clone, Debug, PartialEq)]
enum Pb {
    Num(u64),
    Len(Vec<u8>),
}

fn pb(b: &[u8]) -> Result<Vec<(u64, Pb)>, String> {
    let mut v = vec![];
    let mut p = 0;
    let vint = |p: &mut usize| -> Result<u64, String> {
        let mut r = 0u64;
        for i in 0..10 {
            let x = *b.get(*p).ok_or("truncated message")?;
            *p += 1;
            r |= ((x & 127) as u64) << (7 * i);
            if x < 128 {
                return Ok(r);
            }
        }
        Err("bad varint in message".into())
    };
    while p < b.len() {
        let key = vint(&mut p)?;
        let val = match key & 7 {
            0 => Pb::Num(vint(&mut p)?),
            2 => {
                let n = vint(&mut p)? as usize;
                let s = b.get(p..p.checked_add(n).ok_or("bad length")?).ok_or("truncated field")?;
                p += n;
                Pb::Len(s.to_vec())
            }
            1 => {
                p += 8;
                continue;
            }
            5 => {
                p += 4;
                continue;
            }
            t => return Err(format!("wire type {}", t)),
        };
        v.push((key >> 3, val));
    }
    Ok(v)
}

fn num(m: &[(u64, Pb)], tag: u64) -> u64 {
    m.iter()
        .rev()
        .find_map(|(t, v)| match v {
            Pb::Num(n) if *t == tag => Some(*n),
            _ => None,
        })
        .unwrap_or(0)
}
fn len(m: &[(u64, Pb)], tag: u64) -> Vec<u8> {
    opt(m, tag).unwrap_or_default()
}
fn opt(m: &[(u64, Pb)], tag: u64) -> Option<Vec<u8>> {
    m.iter().rev().find_map(|(t, v)| match v {
        Pb::Len(n) if *t == tag => Some(n.clone()),
        _ => None,
    })
}
fn text(m: &[(u64, Pb)], tag: u64) -> Result<String, String> {
    String::from_utf8(len(m, tag)).map_err(|_| "a string is not UTF-8".to_string())
}
/// map<string, message>
fn map(m: &[(u64, Pb)], tag: u64) -> Result<BTreeMap<String, Vec<(u64, Pb)>>, String> {
    let mut r = BTreeMap::new();
    for (t, v) in m {
        if let (true, Pb::Len(b)) = (*t == tag, v) {
            let e = pb(b)?;
            r.insert(text(&e, 1)?, pb(&len(&e, 2))?);
        }
    }
    Ok(r)
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct ColMeta {
    name: String,
    ty: u64,
    nullable: u64,
    enc: u64,
    idx: u64,
    /// encoder layout: the oneof field present (4 plain, 5 dictionary, 6 snappy)
    layout: Vec<u64>,
    /// column index present
    col_index: Vec<u64>,
    block_index: Option<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Index {
    meta_pos: u64,
    id: Vec<u8>,
    db: String,
    table: String,
    shard: u64,
    rows: u64,
    cols: BTreeMap<String, ColMeta>,
}

const DAT: &[u8] = b"MEERKAT_DATA1";
const IDX: &[u8] = b"MEERKAT_IDX1";

fn read_index(f: &[u8]) -> Result<Index, String> {
    if !f.starts_with(IDX) {
        return Err("the index file does not start with its signature".into());
    }
    if f.len() < IDX.len() + 8 {
        return Err(format!("the index file has {} bytes", f.len()));
    }
    let (body, foot) = f.split_at(f.len() - 8);
    let pos = u64::from_le_bytes(foot.try_into().unwrap());
    if pos < IDX.len() as u64 || pos > body.len() as u64 {
        return Err(format!("the footer points to {} in an index file of {} bytes", pos, f.len()));
    }
    let m = pb(&body[pos as usize..]).map_err(|e| format!("metadata at {}: {}", pos, e))?;
    let sm = pb(&len(&m, 1))?;
    let metas = map(&sm, 8)?;
    let layouts = map(&m, 2)?;
    let mut cols = BTreeMap::new();
    if metas.keys().ne(layouts.keys()) {
        return Err(format!(
            "columns with metadata {:?} but with a layout {:?}",
            metas.keys(),
            layouts.keys()
        ));
    }
    for (k, c) in &metas {
        let l = &layouts[k];
        let block_index = match opt(l, 3) {
            None => None,
            Some(b) => opt(&pb(&b)?, 1).map(|r| pb(&r)).transpose()?.map(|r| (num(&r, 1), num(&r, 2))),
        };
        if let Some((a, b)) = block_index {
            if a > b || b > pos {
                return Err(format!("column {}: block index range {}..{}", k, a, b));
            }
        }
        cols.insert(
            k.clone(),
            ColMeta {
                name: text(c, 1)?,
                ty: num(c, 2),
                nullable: num(c, 3),
                enc: num(c, 4),
                idx: num(c, 5),
                layout: l.iter().map(|x| x.0).filter(|t| (4..=6).contains(t)).collect(),
                col_index: l.iter().map(|x| x.0).filter(|t| (1..=2).contains(t)).collect(),
                block_index,
            },
        );
    }
    Ok(Index {
        meta_pos: pos,
        id: len(&sm, 1),
        db: text(&sm, 2)?,
        table: text(&sm, 3)?,
        shard: num(&sm, 4),
        rows: num(&sm, 7),
        cols,
    })
}

fn check_index(p: &Plan, o: &Out, f: &[u8]) -> Result<Index, String> {
    let x = read_index(f)?;
    eq("segment id", &x.id[..], &p.id[..])?;
    eq("database name", &x.db, &p.db)?;
    eq("table name", &x.table, &p.table)?;
    eq("shard id", x.shard, p.shard as u64)?;
    eq("number of rows", x.rows, p.rows as u64)?;
    let want: BTreeMap<String, &Col> = p
        .cols
        .iter()
        .zip(&o.cols)
        .filter(|(_, o)| !o.refused)
        .map(|(c, _)| (c.name.clone(), c))
        .collect();
    if x.cols.keys().ne(want.keys()) {
        return Err(format!("columns {:?} instead of {:?}", x.cols.keys(), want.keys()));
    }
    for (k, c) in want {
        let m = &x.cols[&k];
        eq("column name", &m.name, &c.name)?;
        eq(&format!("type of column {}", k), m.ty, c.ty as u64)?;
        eq(&format!("nullability of column {}", k), m.nullable, c.nullable as u64)?;
        eq(&format!("encoding of column {}", k), m.enc, c.enc as u64)?;
        eq(&format!("index type of column {}", k), m.idx, c.idx as u64)?;
        eq(&format!("encoder layout of column {}", k), m.layout.len(), 1)?;
        if c.enc == 0 {
            eq(&format!("encoder layout of column {}", k), m.layout[0], 4)?;
        }
        if m.block_index.is_none() {
            return Err(format!("column {} has no block index range", k));
        }
    }
    Ok(x)
}

/// Cuts the data file into the blocks of a column, as its block index describes them.
fn column_blocks(o: &ColOut, f: &[u8]) -> Result<Vec<(u32, Vec<u8>)>, String> {
    let mut at = o.start.0;
    let mut v = vec![];
    for (id, end) in &o.entries {
        if *end < at || *end > f.len() as u64 {
            return Err(format!("a block ends at {} but starts at {} (file of {} bytes)", end, at, f.len()));
        }
        v.push((*id, f[at as usize..*end as usize].to_vec()));
        at = *end;
    }
    if at != o.end.0 {
        return Err(format!("the last block ends at {} but the column at {}", at, o.end.0));
    }
    Ok(v)
}

fn rows_of(c: &Col) -> Vec<Row> {
    c.batches.iter().flatten().cloned().collect()
}

fn cells_of(c: &Col) -> Vec<Cell> {
    rows_of(c)
        .iter()
        .map(|r| match r {
            Some((s, l)) => Bin::cell(*s, *l),
            None => Cell::Null,
        })
        .collect()
}

fn check_data(p: &Plan, o: &Out, f: &[u8]) -> Result<(), String> {
    if !f.starts_with(DAT) {
        return Err("the data file does not start with its signature".into());
    }
    let mut at = DAT.len() as u64;
    for (c, o) in p.cols.iter().zip(&o.cols) {
        eq(&format!("start of column {}", c.name), o.start.0, at)?;
        at = o.end.0;
        if o.refused || c.enc != 0 {
            continue;
        }
        let blocks = column_blocks(o, f).map_err(|e| format!("column {}: {}", c.name, e))?;
        let got = decode_all::<Bin>(&blocks, c.nullable).map_err(|e| format!("column {}: {}", c.name, e))?;
        diff(&format!("column {} read back", c.name), &got, &cells_of(c))?;
    }
    eq("length of the data file", f.len() as u64, at)
}

fn files(d: &Dir, p: &Plan) -> Result<(Vec<u8>, Vec<u8>), String> {
    let (dat, idx) = name_of(&p.id);
    Ok((d.content(&dat)?, d.content(&idx)?))
}

fn describe(p: &Plan) -> String {
    let cols: Vec<String> = p
        .cols
        .iter()
        .map(|c| {
            format!(
                "{}{}:{}",
                c.name,
                if c.nullable { "?" } else { "" },
                c.batches
                    .iter()
                    .map(|b| {
                        let bytes: u64 = b.iter().flatten().map(|r| r.1 as u64).sum();
                        format!("[{} rows, {} null, {} bytes]", b.len(), b.iter().filter(|r| r.is_none()).count(), bytes)
                    })
                    .collect::<Vec<_>>()
                    .join("")
            )
        })
        .collect();
    format!("segment {} {}/{} shard {} rows {}: {}", b64(&p.id), p.db, p.table, p.shard, p.rows, cols.join(" "))
}

fn seen(ctx: &mut Ctx, p: &Plan) {
    ctx.step(|| describe(p));
    ctx.steps(p.cols.iter().map(|c| c.batches.len() as u64 + 1).sum::<u64>() + 2);
    ctx.state(p);
}

// ---------------------------------------------------------------- batches

const SHAPES: usize = 8;

/// Rows of one batch, by shape.
fn shape(k: usize, nullable: bool, seq: &mut u32) -> Vec<Row> {
    let mut val = |l: u32| {
        *seq += 1;
        Some((*seq, l))
    };
    match k {
        0 => vec![],
        1 => vec![val(4)],
        2 => vec![val(0), if nullable { None } else { val(1) }, val(300)],
        3 => (0..200).map(|i| if nullable && i % 3 == 1 { None } else { val(i % 9) }).collect(),
        // reaches the block size in the middle of a batch
        4 => (0..5).map(|i| if nullable && i == 2 { None } else { val(50_000) }).collect(),
        // a single value far beyond the block size, then little more
        5 => vec![val(400_000), val(2)],
        // exactly the block size, then one row
        6 => vec![val(65_536), val(65_536), if nullable { None } else { val(1) }],
        _ => (0..130).map(|i| if nullable && i > 100 { None } else { val(2_000 + i) }).collect(),
    }
}

fn pick_col(ctx: &mut Ctx, name: &str, n: usize, shapes: usize, seq: &mut u32) -> Col {
    let nullable = ctx.choose(2) == 1;
    let batches = (0..n).map(|_| shape(ctx.choose(shapes), nullable, seq)).collect();
    col(name, nullable, batches)
}

// ---------------------------------------------------------------- C16, C22

fn data_scenarios(tier: Tier, judge: fn(&mut Ctx, &Dir, &Plan, &Out) -> Result<(), String>) -> Vec<Scenario> {
    let mut out = vec![];
    let go = move |ctx: &mut Ctx, p: Plan| -> Result<(), String> {
        let d = Dir::new(ctx, "seg");
        seen(ctx, &p);
        let o = written(&d, &p)?;
        ctx.outcome(&o.cols.iter().map(|c| (c.start, c.end, c.entries.clone())).collect::<Vec<_>>());
        judge(ctx, &d, &p, &o)
    };
    // writes that take long: whatever is not awaited is missing when close returns
    out.push(Scenario::new("slow-disk", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(3);
        let cols = (0..k).map(|i| pick_col(ctx, ["a", "b"][i], 1, SHAPES, &mut seq)).collect();
        let p = plan(8, cols);
        let d = Dir::new(ctx, "seg");
        let slow = ctx.pick(SLOW);
        d.s.st.lock().unwrap().slow = slow.to_vec();
        ctx.step(|| format!("slow: {:?}", slow));
        ctx.state(&(&p, slow));
        seen(ctx, &p);
        let o = written(&d, &p)?;
        judge(ctx, &d, &p, &o)
    }));
    out.push(Scenario::new("over-older-files", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(3);
        let cols = (0..k).map(|i| pick_col(ctx, ["a", "b"][i], 1, tier.of(5, SHAPES), &mut seq)).collect();
        let p = plan(8, cols);
        let d = Dir::new(ctx, "seg");
        stale(ctx, &d, &p)?;
        seen(ctx, &p);
        let o = written(&d, &p)?;
        judge(ctx, &d, &p, &o)
    }));
    let n = tier.of(3, 4);
    out.push(Scenario::new("one-column", move |ctx| {
        let mut seq = 0;
        let c = pick_col(ctx, "a", n, SHAPES, &mut seq);
        go(ctx, plan(7, vec![c]))
    }));
    // values somebody could treat differently
    let n = tier.of(2, 3);
    out.push(Scenario::new("special-values", move |ctx| {
        let nullable = ctx.choose(2) == 1;
        let len = ctx.pick(&[1, 13, 14, 70_000]);
        let mut one = || -> Vec<Row> {
            (0..n)
                .map(|_| match ctx.choose(SPECIALS as usize + nullable as usize) as u32 {
                    k if k < SPECIALS => Some((SPECIAL + k, len)),
                    _ => None,
                })
                .collect()
        };
        let rows = one();
        let batches = if ctx.choose(2) == 1 { rows.chunks(1).map(|c| c.to_vec()).collect() } else { vec![rows] };
        go(ctx, plan(7, vec![col("a", nullable, batches), col("b", false, vec![vec![Some((1, 2))]])]))
    }));
    let sh = tier.of(5, 8);
    out.push(Scenario::new("several-columns", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(4);
        let cols = (0..k)
            .map(|i| pick_col(ctx, ["a", "b", "c"][i], if k == 3 { 1 } else { 2 }, if k == 3 { SHAPES } else { sh }, &mut seq))
            .collect();
        go(ctx, plan(9, cols))
    }));
    // columns that are refused, or left without being closed, beside others
    let n = tier.of(3, 4);
    out.push(Scenario::new("columns-not-finished", move |ctx| {
        let mut seq = 0;
        let cols = (0..n)
            .map(|i| {
                let nullable = i == 1;
                let sh = ctx.pick(&[0, 1, 3, 4]);
                let mut c = col(["a", "b", "c", "d"][i], nullable, vec![shape(sh, nullable, &mut seq)]);
                match ctx.choose(3) {
                    0 => {}
                    1 => c.enc = 1,
                    _ => c.left = true,
                }
                c
            })
            .collect();
        go(ctx, plan(14, cols))
    }));
    let n = tier.of(2, 3);
    out.push(Scenario::new("giant-batches", move |ctx| {
        let mut seq = 0;
        let nullable = ctx.choose(2) == 1;
        let batches = (0..n).map(|_| giant(ctx.choose(GIANTS), nullable, &mut seq)).collect();
        go(ctx, plan(12, vec![col("a", nullable, batches), col("b", false, vec![vec![Some((1, 2))]])]))
    }));
    // long lives: very many batches of a column, very many columns
    out.push(Scenario::new("many-batches", move |ctx| {
        let n = ctx.pick(tier.of(&[300u32, 5000], &[300, 5000, 70_000]));
        let nullable = ctx.choose(2) == 1;
        let len = ctx.pick(&[3u32, 700, 0]);
        let batches = (0..n)
            .map(|i| (0..i % 3).map(|k| if nullable && (i + k) % 5 == 0 { None } else { Some((3 * i + k, len + i % 2)) }).collect())
            .collect();
        go(ctx, plan(14, vec![col("a", nullable, batches), col("b", true, vec![vec![None, Some((1, 2))]])]))
    }));
    out.push(Scenario::new("many-columns", move |ctx| {
        let n = ctx.pick(tier.of(&[17usize, 300], &[17, 300, 1000, 5000]));
        let mut seq = 0;
        let kinds = ctx.pick(&[[0usize, 1, 2], [1, 1, 1], [3, 0, 2], [1, 2, 3]]);
        let mixed = ctx.choose(2) == 1;
        let cols = (0..n)
            .map(|i| col(&format!("c{}", i), mixed && i % 2 == 1, vec![shape(kinds[i % 3], mixed && i % 2 == 1, &mut seq)]))
            .collect();
        go(ctx, plan(15, cols))
    }));
    out.push(Scenario::new("many-blocks", move |ctx| {
        let n = tier.of(1100u32, 3000);
        let nullable = ctx.choose(2) == 1;
        let per = ctx.pick(&[1usize, 40, 5000]);
        let rows: Vec<Row> = (0..n).map(|i| if nullable && i % 9 == 4 { None } else { Some((i, 131_072 + i % 150)) }).collect();
        let batches = rows.chunks(per).map(|c| c.to_vec()).collect();
        go(ctx, plan(13, vec![col("a", nullable, batches), col("b", true, vec![vec![None, Some((1, 2))]])]))
    }));
    // every length of a value, every number of rows
    let sizes = sweep(tier.of(1100, 4200), tier.of(18, 21));
    out.push(Scenario::new("every-length", move |ctx| {
        let n = ctx.pick(&sizes) as u32;
        let nullable = ctx.choose(2) == 1;
        let mut rows: Vec<Row> = vec![Some((1, n)), Some((2, 3)), Some((3, n))];
        if nullable {
            rows.insert(1, None);
        }
        go(ctx, plan(14, vec![col("a", nullable, vec![rows.clone(), vec![Some((4, 1))]]), col("b", nullable, vec![rows])]))
    }));
    let sizes = sweep(tier.of(1100, 4200), tier.of(14, 18));
    out.push(Scenario::new("every-batch-size", move |ctx| {
        let n = ctx.pick(&sizes) as u32;
        let nullable = ctx.choose(2) == 1;
        let rows: Vec<Row> = (0..n).map(|i| if nullable && i % 5 == 4 { None } else { Some((i, i % 9)) }).collect();
        let small = vec![vec![Some((1, 2))]];
        go(ctx, plan(15, vec![col("a", nullable, vec![vec![Some((9, 1))], rows.clone()]), col("b", false, small.clone()), col("c", nullable, vec![rows])]))
    }));
    // block boundaries: sequences of values whose sizes straddle the block size
    let n = tier.of(4, 5);
    out.push(Scenario::new("block-boundaries", move |ctx| {
        let sizes: &[u32] = &[0, 1, 65_535, 65_536, 131_071, 131_072, 131_073];
        let nullable = ctx.choose(2) == 1;
        let per_batch = 1 + ctx.choose(2);
        let rows: Vec<Row> = (0..n)
            .map(|i| {
                let k = ctx.choose(sizes.len() + nullable as usize);
                sizes.get(k).map(|l| (i as u32, *l))
            })
            .collect();
        let batches = rows.chunks(per_batch).map(|c| c.to_vec()).collect();
        go(ctx, plan(11, vec![col("a", nullable, batches)]))
    }));
    out
}

/// A segment of more than 4 GiB: large values are not stored, only noted.
fn huge_segment(tier: Tier) -> Scenario {
    Scenario::new("beyond-4-gib", move |ctx| {
        // few large blocks, or tens of thousands of ordinary ones
        let size = ctx.pick(&[100_000_007usize, 131_080]);
        let nullable = ctx.choose(tier.of(1, 2)) == 1;
        let n = (1usize << 32) / size + 2;
        let d = Dir::new(ctx, "huge");
        d.s.st.lock().unwrap().discard = true;
        let mut seq = 0;
        let tail: Vec<Vec<Row>> = (0..4).map(|k| shape(k, nullable, &mut seq)).collect();
        let mut p = plan(44, vec![col("a", nullable, vec![]), col("b", nullable, tail)]);
        p.rows = n as u32;
        ctx.step(|| format!("{} values of {} bytes, one per batch, then a small column; nullable={}", n, size, nullable));
        ctx.steps(n as u64);
        ctx.state(&(n, size, nullable));
        let e = |x: anyhow::Error| format!("{:#}", x);
        let mut out = Out::default();
        no_panic(|| {
            block_on(async {
                let info = SegmentInfo {
                    segment_id: uuid_of(&p.id),
                    database_name: p.db.clone(),
                    table_name: p.table.clone(),
                    shard_id: p.shard,
                    num_rows: p.rows,
                };
                let mut w = SegmentWriter::new(&d.path, info).await.map_err(e)?;
                for c in &p.cols {
                    let mut o = ColOut { start: segment::positions(&w), ..Default::default() };
                    let info = ColumnInfo {
                        name: c.name.clone(),
                        column_type: ColumnType::from_i32(c.ty).unwrap(),
                        encoding: Encoding::Raw,
                        index_type: IndexType::from_i32(0).unwrap(),
                        nullable,
                    };
                    let mut cw = w.new_binary_column_writer(info).map_err(e)?;
                    if c.name == "a" {
                        let mut value = vec![0u8; size];
                        let mut buf = Bin::buf(nullable);
                        for i in 0..n {
                            value.fill((i % 255) as u8 + 1);
                            buf.clear();
                            buf.append(&value);
                            cw.write(&buf).await.map_err(e)?;
                        }
                    }
                    for b in &c.batches {
                        let mut buf = Bin::buf(nullable);
                        feed::<Bin>(&mut buf, b);
                        cw.write(&buf).await.map_err(e)?;
                    }
                    cw.close().await.map_err(e)?;
                    drop(cw);
                    o.entries = segment::block_entries(&w);
                    o.end = segment::positions(&w);
                    out.cols.push(o);
                }
                segment::close(&mut w).await.map_err(e)?;
                out.closed = segment::positions(&w);
                segment::sync(w).await.map_err(e)
            })
        })?
        .map_err(|x| format!("writing the segment failed: {}", x))?;
        let (dat, idx) = name_of(&p.id);
        let path = d.file(&dat);
        eq("length of the data file", raw_len(&path)?, out.closed.0)?;
        let mut holes = std::mem::take(&mut d.s.st.lock().unwrap().holes);
        holes.sort_by_key(|h| h.1);
        // the large column: each value in a block of its own, at the recorded offset
        let a = &out.cols[0];
        eq("blocks of column a", a.entries.len(), n)?;
        let mut at = a.start.0;
        eq("start of column a", at, DAT.len() as u64)?;
        for (i, (id, end)) in a.entries.iter().enumerate() {
            eq(&format!("row of block {}", i), *id as usize, i)?;
            let from = holes.partition_point(|h| h.1 < at);
            let to = holes.partition_point(|h| h.1 < *end);
            let value = Some((i % 255) as u8 + 1);
            let inside = holes[from..to].iter().filter(|h| h.1 + h.2 as u64 <= *end && h.3 == value);
            let bytes: u64 = inside.map(|h| h.2 as u64).sum();
            // the first and last pieces hold the frame too
            if *end < at + size as u64 || *end > at + size as u64 + 64 || bytes + 3 * (1 << 14) < size as u64 {
                return Err(format!("block {} from {} to {} holds {} bytes of its value of {}", i, at, end, bytes, size));
            }
            at = *end;
        }
        eq("end of column a", a.end.0, at)?;
        // the small column lies wholly beyond 4 GiB
        let b = &out.cols[1];
        eq("start of column b", b.start.0, at)?;
        let mut blocks = vec![];
        for (id, end) in &b.entries {
            if *end < at || *end > out.closed.0 {
                return Err(format!("a block of column b ends at {} but starts at {}", end, at));
            }
            blocks.push((*id, raw_read_at(&path, at, (*end - at) as usize)?));
            at = *end;
        }
        eq("end of column b", out.closed.0, at)?;
        let got = decode_all::<Bin>(&blocks, nullable).map_err(|e| format!("column b: {}", e))?;
        diff("column b read back", &got, &cells_of(&p.cols[1]))?;
        ctx.outcome(&out.closed);
        check_index(&p, &out, &d.content(&idx)?).map(|_| ())
    })
}

/// Batches far beyond any internal size: values of megabytes, tens of thousands of rows, many
/// blocks at once.
const GIANTS: usize = 8;
fn giant(k: usize, nullable: bool, seq: &mut u32) -> Vec<Row> {
    let mut val = |l: u32| {
        *seq += 1;
        Some((*seq, l))
    };
    let maybe = |i: u32, m: u32, v: Row| if nullable && i % m == 1 { None } else { v };
    match k {
        0 => vec![val(3)],
        1 => vec![val((1 << 20) + 5)],
        2 => vec![val(1 << 20), if nullable { None } else { val(0) }, val((1 << 20) - 1)],
        3 => vec![val(7), val((1 << 21) + 1), val(9)],
        4 => vec![val(5_000_011)],
        5 => (0..70_001).map(|i| maybe(i, 2, val(1 + i % 3))).collect(),
        6 => (0..40).map(|i| maybe(i, 5, val(130_000 + i))).collect(),
        _ => (0..200_003).map(|i| maybe(i, 70_000, val((i % 1000 == 999) as u32 * 900))).collect(),
    }
}

fn judge_data(_: &mut Ctx, d: &Dir, p: &Plan, o: &Out) -> Result<(), String> {
    let (dat, _) = files(d, p)?;
    if let Some(c) = &o.at_close {
        check_data(p, o, &c.0).map_err(|e| format!("close had returned, but {}", e))?;
    }
    check_data(p, o, &dat)
}

/// C22: what the in-memory block index says about a column, checked against the bytes of the
/// file alone; then whether it was persisted.
fn judge_index(ctx: &mut Ctx, d: &Dir, p: &Plan, o: &Out) -> Result<(), String> {
    let (dat, idx) = files(d, p)?;
    let x = read_index(&idx)?;
    for (c, o) in p.cols.iter().zip(&o.cols) {
        if o.refused {
            continue;
        }
        let rows = rows_of(c);
        // walk the blocks by their own data length prefix and the rows they were indexed under
        let mut at = o.start.0;
        let mut next = 0usize;
        for (i, (id, end)) in o.entries.iter().enumerate() {
            let what = format!("column {} block {}", c.name, i);
            let (n, k) = ref_varint(dat.get(at as usize..).ok_or("offset beyond the file")?)
                .ok_or_else(|| format!("{}: no data length at {}", what, at))?;
            if *end < at + k as u64 + n as u64 || *end > o.end.0 {
                return Err(format!("{}: starts at {} with {} data bytes but ends at {}", what, at, n, end));
            }
            let id = *id as usize;
            if id < next || id >= rows.len() {
                return Err(format!("{}: last row {} after row {} of {}", what, id, next, rows.len()));
            }
            let want: u64 = rows[next..=id].iter().flatten().map(|r| r.1 as u64).sum();
            eq(&format!("{}: data bytes of rows {}..={}", what, next, id), n as u64, want)?;
            let first = rows[next..=id].iter().flatten().next();
            if let Some((s, l)) = first {
                let got = &dat[at as usize + k..at as usize + k + *l as usize];
                if Cell::Bytes(got.to_vec()) != Bin::cell(*s, *l) {
                    return Err(format!("{}: does not start with the value of its first row", what));
                }
            }
            next = id + 1;
            at = *end;
        }
        eq(&format!("column {}: end of the last block", c.name), at, o.end.0)?;
        eq(&format!("column {}: rows indexed", c.name), next, rows.len())?;
        let r = x.cols.get(&c.name).and_then(|m| m.block_index);
        if !o.entries.is_empty() && r.map_or(true, |(a, b)| a == b) {
            if is_known("blockindex") && r == Some((0, 0)) && o.start.1 == o.end.1 {
                ctx.known(
                    "blockindex",
                    "BlockIndex::flush writes nothing and reports the range 0..0: block offsets and row ids of a column are lost when the segment is closed".into(),
                );
            } else {
                return Err(format!(
                    "column {}: {} blocks but the persisted block index is {:?}",
                    c.name,
                    o.entries.len(),
                    r
                ));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn metadata_scenarios(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let go = |ctx: &mut Ctx, p: Plan| -> Result<(), String> {
        let d = Dir::new(ctx, "seg");
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let (_, idx) = files(&d, &p)?;
        if let Some(c) = &o.at_close {
            check_index(&p, &o, &c.1).map_err(|e| format!("close had returned, but {}", e))?;
        }
        let x = check_index(&p, &o, &idx)?;
        ctx.outcome(&x);
        // nothing before the metadata but the signature and what columns wrote
        let last = o.cols.last().map_or(IDX.len() as u64, |c| c.end.1);
        eq("position of the metadata", x.meta_pos, last)?;
        eq("length of the index file", idx.len() as u64, o.closed.1)
    };
    out.push(Scenario::new("slow-disk", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(3);
        let cols = (0..k).map(|i| pick_col(ctx, ["a", "b"][i], 1, 4, &mut seq)).collect();
        let p = plan(8, cols);
        let d = Dir::new(ctx, "seg");
        let slow = ctx.pick(SLOW);
        d.s.st.lock().unwrap().slow = slow.to_vec();
        ctx.step(|| format!("slow: {:?}", slow));
        ctx.state(&(&p, slow));
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let c = o.at_close.as_ref().ok_or("not closed")?;
        check_index(&p, &o, &c.1).map_err(|e| format!("close had returned, but {}", e))?;
        Ok(())
    }));
    out.push(Scenario::new("over-older-files", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(3);
        let cols = (0..k).map(|i| pick_col(ctx, ["a", "b"][i], 1, 4, &mut seq)).collect();
        let p = plan(8, cols);
        let d = Dir::new(ctx, "seg");
        stale(ctx, &d, &p)?;
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let (_, idx) = files(&d, &p)?;
        check_index(&p, &o, &idx)?;
        eq("length of the index file", idx.len() as u64, o.closed.1)
    }));
    let names: &'static [&str] = &["", "a", "A", " a ", "ü☃\u{10FFFF}", "e\u{301}\u{feff}Ǆ", "with \"quotes\"/..\0\n", "LONG"];
    let text = |s: &str, n: usize| if s == "LONG" { "x".repeat(n) } else { s.to_string() };
    out.push(Scenario::new("segment-fields", move |ctx| {
        let mut p = plan(1, vec![]);
        p.db = text(ctx.pick(names), 70_000);
        p.table = text(ctx.pick(names), 300);
        let nums: &[u32] = &[0, 1, 127, 128, 16_384, 100_000, u32::MAX];
        p.shard = ctx.pick(nums);
        p.rows = ctx.pick(nums);
        p.id = ctx.pick(&[[0u8; 16], [255; 16], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]);
        if ctx.choose(2) == 1 {
            p.cols.push(col("c", false, vec![vec![Some((1, 3))]]));
        }
        go(ctx, p)
    }));
    out.push(Scenario::new("column-fields", move |ctx| {
        let mut p = plan(2, vec![]);
        let mut c = col("", ctx.choose(2) == 1, vec![]);
        c.name = text(ctx.pick(names), 5_000);
        c.ty = ctx.choose(10) as i32;
        c.idx = ctx.choose(4) as i32;
        let mut seq = 0;
        for _ in 0..ctx.choose(3) {
            let k = ctx.choose(4);
            c.batches.push(shape(k, c.nullable, &mut seq));
        }
        p.cols.push(c);
        go(ctx, p)
    }));
    // every character a name could be cut at, folded or escaped by, wherever it stands
    let chars: Vec<String> = (0u8..128)
        .map(|c| (c as char).to_string())
        .chain("\u{85}\u{a0}\u{ad}ÄßİıſK\u{200b}\u{200d}\u{202e}\u{2028}\u{3000}\u{d7ff}\u{e000}\u{fffd}\u{ffff}\u{1f600}\u{10ffff}".chars().map(|c| c.to_string()))
        .chain(["%20", "..", "./", "\\n", "null", "${a}", "a/b", "a.b", "a:b"].iter().map(|c| c.to_string()))
        .collect();
    let n = chars.len();
    out.push(Scenario::new("every-character", move |ctx| {
        let c = &chars[ctx.choose(n)];
        let t = match ctx.choose(5) {
            0 => c.clone(),
            1 => format!("{}a", c),
            2 => format!("a{}", c),
            3 => format!("a{}b", c),
            _ => format!("a{}{}", c, c),
        };
        let mut p = plan(5, vec![col(&t, false, vec![vec![Some((1, 3))]])]);
        match ctx.choose(3) {
            0 => p.db = t,
            1 => p.table = t,
            _ => (p.db, p.table) = (t.clone(), t),
        }
        go(ctx, p)
    }));
    // every length of a name
    let lens = sweep(tier.of(2100, 9000), tier.of(16, 22));
    out.push(Scenario::new("every-name-length", move |ctx| {
        let t: String = (0..ctx.pick(&lens)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let mut p = plan(5, vec![col("c", false, vec![vec![Some((1, 3))]])]);
        match ctx.choose(3) {
            0 => p.db = t,
            1 => p.table = t,
            _ => p.cols[0].name = t,
        }
        go(ctx, p)
    }));
    out.push(Scenario::new("every-bit", move |ctx| {
        let mut p = plan(6, vec![]);
        let near = |k: u32, d: u32| (1u32 << k).wrapping_add(d).wrapping_sub(1);
        match ctx.choose(3) {
            0 => p.shard = near(ctx.choose(32) as u32, ctx.choose(3) as u32),
            1 => p.rows = near(ctx.choose(32) as u32, ctx.choose(3) as u32),
            _ => {
                let bit = ctx.choose(128);
                p.id = [[0u8; 16], [0xFF; 16], [0x5A; 16]][ctx.choose(3)];
                p.id[bit / 8] ^= 1 << (bit % 8);
            }
        }
        go(ctx, p)
    }));
    // several columns with all combinations of differing attributes: nothing leaks between them
    let n = tier.of(3usize, 4);
    out.push(Scenario::new("several-columns", move |ctx| {
        let mut p = plan(3, vec![]);
        let k = ctx.choose(n + 1);
        let mut seq = 0;
        for i in 0..k {
            let nullable = ctx.choose(2) == 1;
            let mut c = col(["a", "A", "a ", ""][i], nullable, vec![shape(ctx.choose(4), nullable, &mut seq)]);
            c.ty = [8, 3, 0, 9][(i + ctx.choose(2)) % 4];
            c.idx = ((i + ctx.choose(2)) % 4) as i32;
            p.cols.push(c);
        }
        go(ctx, p)
    }));
    out.push(Scenario::new("many-columns", move |ctx| {
        let n = ctx.pick(tier.of(&[20usize, 127, 128, 200, 1000], &[20, 127, 128, 200, 255, 256, 257, 1000, 5000, 20_000]));
        let mut seq = 0;
        let mut p = plan(4, vec![]);
        p.cols = (0..n)
            .map(|i| {
                let mut c = col(&format!("column-{}", i), i % 2 == 1, vec![shape(1 + i % 2, i % 2 == 1, &mut seq)]);
                c.ty = (i % 10) as i32;
                c.idx = (i % 4) as i32;
                c
            })
            .collect();
        go(ctx, p)
    }));
    out
}

// ---------------------------------------------------------------- C18

fn naming(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let one = |ctx: &mut Ctx, ids: &[[u8; 16]]| -> Result<(), String> {
        let d = Dir::new(ctx, "nm");
        // the segment goes into a directory among others
        let dir = d.file("db");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(d.file("other")).unwrap();
        raw_write(&format!("{}/precious", dir), b"precious");
        let mut want: Vec<String> = vec!["db/".into(), "db/precious".into(), "other/".into()];
        // files somebody could take for leftovers
        let near = b64(&[0x55; 16]);
        let others: Vec<(String, &[u8])> = vec![
            ("empty".into(), b""),
            (".hidden".into(), b"h"),
            ("a.dat".into(), b""),
            ("a.idx".into(), b"MEERKAT_IDX1"),
            ("b.tmp".into(), b"t"),
            ("c.lock".into(), b""),
            ("d.bak".into(), b"d"),
            ("LOCK".into(), b""),
            ("core.1".into(), b"c"),
            (format!("{}.dat", near), b"MEERKAT_DATA1 and more"),
            (format!("{}.idx.tmp", near), b""),
            (format!("{}.dat.1", b64(&ids[0])), b"1"),
            (format!("{}.tmp", b64(&ids[0])), b"2"),
            (b64(&ids[0]), b"3"),
        ];
        for (f, c) in &others {
            raw_write(&format!("{}/{}", dir, f), c);
            want.push(format!("db/{}", f));
        }
        let mut contents = HashMap::new();
        for id in ids {
            let mut p = plan(0, vec![col("a", false, vec![vec![Some((id[0] as u32, 5))]])]);
            p.id = *id;
            ctx.step(|| format!("segment {}", uuid_of(id)));
            no_panic(|| block_on(write_segment(None, &dir, &p, Point::No)))?
                .map_err(|e| format!("writing segment {}: {}", uuid_of(id), e))?;
            let (dat, idx) = name_of(id);
            for f in [format!("db/{}", dat), format!("db/{}", idx)] {
                if !want.contains(&f) {
                    want.push(f);
                }
            }
            let mut got = d.list();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("segment {}: files {:?} instead of {:?}", uuid_of(id), got, want));
            }
            let both = (d.content(&format!("db/{}", dat))?, d.content(&format!("db/{}", idx))?);
            if let Err(e) = check_magic(&both) {
                return Err(format!("segment {}: {}", uuid_of(id), e));
            }
            eq("segment id", &read_index(&both.1)?.id[..], &id[..])?;
            contents.insert(dat, both.0);
            contents.insert(idx, both.1);
            // segments written before are untouched
            for (f, c) in &contents {
                if &d.content(&format!("db/{}", f))? != c {
                    return Err(format!("writing segment {} changed {}", uuid_of(id), f));
                }
            }
        }
        ctx.state(ids);
        ctx.outcome(&want);
        for (f, c) in &others {
            eq(&format!("the unrelated file {}", f), d.content(&format!("db/{}", f))?, c.to_vec())?;
        }
        eq("an unrelated file", d.content("db/precious")?, b"precious".to_vec())
    };
    fn check_magic(f: &(Vec<u8>, Vec<u8>)) -> Result<(), String> {
        if !f.0.starts_with(DAT) || !f.1.starts_with(IDX) {
            return Err("the .dat or .idx file does not start with its signature".into());
        }
        Ok(())
    }
    out.push(Scenario::new("directories", move |ctx| {
        use std::os::unix::ffi::OsStrExt;
        let d = Dir::new(ctx, "nd");
        let long = "n".repeat(200);
        let plain: &[&[u8]] = &[
            b"db", b"db.d", b".db", b"a.dat", b"with space", b"x.tar.gz", b"-", b"_", b"ab/cd/ef", b"db.", b"..x", b"%41", b"a:b",
            "\u{fc}\u{2603}".as_bytes(), b"\xff\xfe", b"new\nline", b"\\back", long.as_bytes(),
        ];
        let name = std::ffi::OsStr::from_bytes(ctx.pick(plain));
        let real = std::path::Path::new(&d.path).join(name);
        std::fs::create_dir_all(&real).map_err(|e| format!("{}{}", HARNESS, e))?;
        let how = ctx.choose(6);
        let mut given = real.clone().into_os_string();
        match how {
            0 => {}
            1 => given.push("/"),
            2 => given.push("/."),
            3 => given.push("//"),
            4 => {
                // relative to the working directory
                let up = std::env::current_dir().map_err(|e| e.to_string())?.components().count() - 1;
                let mut g = std::path::PathBuf::new();
                for _ in 0..up {
                    g.push("..");
                }
                g.push(real.strip_prefix("/").map_err(|e| e.to_string())?);
                given = g.into_os_string();
            }
            _ => {
                let l = std::path::Path::new(&d.path).join("link.to.it");
                std::os::unix::fs::symlink(&real, &l).map_err(|e| format!("{}{}", HARNESS, e))?;
                given = l.into_os_string();
            }
        }
        let id = ctx.pick(&[[0u8; 16], [0xFB; 16]]);
        let mut p = plan(0, vec![col("a", false, vec![vec![Some((1, 5))]])]);
        p.id = id;
        ctx.step(|| format!("directory {:?}", given));
        ctx.state(&(&given.as_bytes()[d.path.len().min(given.len())..], how, id));
        no_panic(|| block_on(write_segment(None, std::path::Path::new(&given), &p, Point::No)))?
            .map_err(|e| format!("writing into {:?}: {}", given, e))?;
        let (dat, idx) = name_of(&id);
        let mut got: Vec<String> = vec![];
        for e in std::fs::read_dir(&real).map_err(|e| e.to_string())?.flatten() {
            got.push(e.file_name().to_string_lossy().into_owned());
        }
        got.sort();
        let mut want = vec![dat.clone(), idx.clone()];
        want.sort();
        eq("files in the directory", &got, &want)?;
        // nothing beside the directory: its ancestors hold one entry each
        let mut at = real.parent().unwrap().to_path_buf();
        while at.starts_with(&d.path) {
            let n = std::fs::read_dir(&at).map_err(|e| e.to_string())?.count();
            let want = 1 + (how == 5 && at == std::path::Path::new(&d.path)) as usize;
            eq(&format!("entries of {:?}", at), n, want)?;
            at = at.parent().unwrap().to_path_buf();
        }
        let b = (
            std::fs::read(real.join(&dat)).map_err(|e| e.to_string())?,
            std::fs::read(real.join(&idx)).map_err(|e| e.to_string())?,
        );
        check_magic(&b)?;
        ctx.outcome(&(how, got));
        eq("segment id", &read_index(&b.1)?.id[..], &id[..])
    }));
    out.push(Scenario::new("every-byte-value-at-every-position", move |ctx| {
        let pos = ctx.choose(16);
        let val = ctx.choose(256) as u8;
        let fill = ctx.pick(&[0u8, 0xFF]);
        let mut id = [fill; 16];
        id[pos] = val;
        one(ctx, &[id])
    }));
    let base: Vec<[u8; 16]> = {
        let mut v: Vec<[u8; 16]> = vec![[0; 16], [255; 16]];
        // neighbours: differing in one bit, in case, in order; all of '-' / '_'
        let mut x = [0xFB, 0xEF, 0xBE, 0xFB, 0xEF, 0xBE, 0xFB, 0xEF, 0xBE, 0xFB, 0xEF, 0xBE, 0xFB, 0xEF, 0xBE, 0xFB];
        v.push(x);
        x[15] = 0xFC;
        v.push(x);
        let mut y = [0u8; 16];
        y[15] = 1;
        v.push(y);
        y[15] = 0;
        y[0] = 1;
        v.push(y);
        y[0] = 0x68; // "aA" vs "AA"
        v.push(y);
        v
    };
    let n = tier.of(3, 4);
    out.push(Scenario::new("segments-of-one-directory", move |ctx| {
        let mut ids: Vec<[u8; 16]> = vec![];
        let mut left = base.clone();
        for _ in 0..n {
            let k = ctx.choose(left.len());
            ids.push(left.remove(k));
        }
        one(ctx, &ids)
    }));
    // a directory that fills up
    out.push(Scenario::new("many-segments-of-one-directory", move |ctx| {
        let n = ctx.pick(tier.of(&[300u32], &[300, 1500]));
        let (at, step) = ctx.pick(&[(12usize, 1u32), (0, 0x0100_0000), (5, 0x0001_0001), (12, u32::MAX)]);
        let fill = ctx.pick(&[0u8, 0x5A]);
        let ids: Vec<[u8; 16]> = (0..n)
            .map(|i| {
                let mut id = [fill; 16];
                id[at..at + 4].copy_from_slice(&i.wrapping_mul(step).to_be_bytes());
                id
            })
            .collect();
        let ids: Vec<[u8; 16]> = ids.iter().enumerate().filter(|(i, x)| !ids[..*i].contains(x)).map(|(_, x)| *x).collect();
        one(ctx, &ids)
    }));
    out
}

// ---------------------------------------------------------------- C19

/// The events of each file, in order. Events of different files are not ordered: they come
/// from independent background threads, so every combination of prefixes is considered.
fn per_file(log: &[Event]) -> BTreeMap<String, Vec<Event>> {
    let mut m: BTreeMap<String, Vec<Event>> = BTreeMap::new();
    for e in log {
        let f = match e.file() {
            Some(f) => f,
            None => continue,
        };
        m.entry(f.clone()).or_default().push(e.clone());
    }
    m
}

fn mutates(e: &Event) -> bool {
    matches!(e, Event::Write { .. } | Event::Truncate { .. } | Event::Unlink { .. } | Event::Open { trunc: true, .. })
}

/// Number of mutations of `ev` that a successful fsync made durable.
fn durable(ev: &[Event]) -> usize {
    let mut n = 0;
    for (i, e) in ev.iter().enumerate() {
        if let Event::SyncEnd { id, ok: true, .. } = e {
            let start = ev[..i].iter().position(|s| matches!(s, Event::SyncStart { id: j, .. } if j == id));
            n = n.max(ev[..start.unwrap_or(0)].iter().filter(|e| mutates(e)).count());
        }
    }
    n
}

/// What a file holds after a crash: its durable mutations, and of the later ones those
/// selected by `keep` (`torn`: the last surviving write only by its first half).
fn crash(ev: &[Event], keep: u64, torn: bool) -> Vec<u8> {
    let safe = durable(ev);
    let muts: Vec<&Event> = ev.iter().filter(|e| mutates(e)).collect();
    let last = (safe..muts.len()).rev().find(|i| keep >> (i - safe) & 1 == 1);
    let mut f: Vec<u8> = vec![];
    for (i, e) in muts.iter().enumerate() {
        if i >= safe && keep >> (i - safe) & 1 == 0 {
            continue;
        }
        match e {
            Event::Write { off, data, .. } => {
                let n = if torn && Some(i) == last { data.len() / 2 } else { data.len() };
                let end = *off as usize + n;
                if f.len() < end {
                    f.resize(end, 0);
                }
                f[*off as usize..end].copy_from_slice(&data[..n]);
            }
            Event::Truncate { len, .. } => f.resize(*len as usize, 0),
            _ => f.clear(),
        }
    }
    f
}

/// Chooses what a crash leaves of a file whose events up to some point are `ev`.
fn pick_crash(ctx: &mut Ctx, file: &str, ev: &[Event]) -> Vec<u8> {
    let n = ev.iter().filter(|e| mutates(e)).count() - durable(ev);
    // all subsets of the last 5 unsynced mutations; those before them survive or not together
    let m = n.min(5);
    let bits = ctx.choose(1 << m) as u64;
    let low = if n > m && ctx.choose(2) == 1 { (1u64 << (n - m)) - 1 } else { 0 };
    let keep = low | bits << (n - m);
    let torn = keep != 0 && ctx.choose(2) == 1;
    let f = crash(ev, keep, torn);
    ctx.step(|| {
        format!(
            "{}: crash after {} calls, {} unsynced, surviving mask {:b}{}: {} bytes",
            file,
            ev.len(),
            n,
            keep,
            if torn { " (last one torn)" } else { "" },
            f.len()
        )
    });
    f
}

fn durability(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![];
    let small = |ctx: &mut Ctx, name: &str, seq: &mut u32, shapes: &[usize]| -> Col {
        let nullable = ctx.choose(2) == 1;
        let n = 1 + ctx.choose(2);
        let b = (0..n).map(|_| shape(ctx.pick(shapes), nullable, seq)).collect();
        col(name, nullable, b)
    };
    // one segment: from the moment sync returned, every crash leaves it complete
    out.push(Scenario::new("one-segment-every-later-crash", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(tier.of(3, 4));
        let cols = (0..k).map(|i| small(ctx, ["a", "b", "c"][i], &mut seq, if i == 0 { &[0, 1, 3, 4, 5, 6] } else { &[2, 4] })).collect();
        let p = plan(5, cols);
        let d = Dir::new(ctx, "du");
        if ctx.choose(2) == 1 {
            d.s.st.lock().unwrap().slow = SLOW[0].to_vec();
        }
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let log = d.s.take_log();
        let (dat, idx) = name_of(&p.id);
        synced(&log, &[&dat, &idx])?;
        let ev = per_file(&log);
        let none = vec![];
        // the recorded history is the whole history: replayed, it gives the file on disk
        for f in [&dat, &idx] {
            let all = crash(ev.get(f).unwrap_or(&none), u64::MAX, false);
            diff(&format!("{}replaying the history of {}", HARNESS, f), &d.content(f)?, &all)?;
        }
        let f = pick_crash(ctx, &dat, ev.get(&dat).unwrap_or(&none));
        check_data(&p, &o, &f).map_err(after)?;
        let g = pick_crash(ctx, &idx, ev.get(&idx).unwrap_or(&none));
        check_index(&p, &o, &g).map_err(after)?;
        ctx.outcome(&(f, g));
        Ok(())
    }));
    // whatever way the directory is written
    out.push(
        Scenario::new("spellings-of-the-directory", move |ctx| {
            let mut seq = 0;
            let cols = (0..ctx.choose(3)).map(|i| small(ctx, ["a", "b"][i], &mut seq, &[1, 3])).collect();
            let p = plan(5, cols);
            let d = Dir::new(ctx, "sp");
            let path = std::path::Path::new(&d.path);
            let (up, name) = (path.parent().unwrap(), path.file_name().unwrap().to_str().unwrap());
            let h = |e: std::io::Error| format!("{}{}", HARNESS, e);
            let home = std::env::current_dir().map_err(h)?;
            let (at, given) = match ctx.choose(9) {
                0 => (up, format!("{}/", d.path)),
                1 => (up, format!("{}/.", d.path)),
                2 => (up, format!("{}//{}", up.display(), name)),
                3 => (up, name.to_string()),
                4 => (up, format!("./{}", name)),
                5 => (up, format!("{}/../{}/", name, name)),
                6 => (path, ".".to_string()),
                7 => (path, "./".to_string()),
                _ => (path, format!("../{}", name)),
            };
            std::env::set_current_dir(at).map_err(h)?;
            let r = no_panic(|| block_on(write_segment(Some(&d.s), &given, &p, Point::No)));
            std::env::set_current_dir(home).map_err(h)?;
            ctx.step(|| format!("directory {:?} from {:?}", given.replace(name, "NAME"), at == up));
            ctx.state(&(given.replace(name, "NAME"), at == up));
            seen(ctx, &p);
            let o = r?.map_err(|e| format!("writing into {:?}: {}", given, e))?;
            let log = d.s.take_log();
            let (dat, idx) = name_of(&p.id);
            synced(&log, &[&dat, &idx]).map_err(|e| format!("directory {:?}: {}", given, e))?;
            let ev = per_file(&log);
            let none = vec![];
            let f = pick_crash(ctx, &dat, ev.get(&dat).unwrap_or(&none));
            check_data(&p, &o, &f).map_err(after)?;
            let g = pick_crash(ctx, &idx, ev.get(&idx).unwrap_or(&none));
            check_index(&p, &o, &g).map_err(after)?;
            ctx.outcome(&(f, g));
            Ok(())
        })
        .isolated(),
    );
    // the same over older files of the same names, which a crash may bring back
    out.push(Scenario::new("over-older-files-every-later-crash", move |ctx| {
        let mut seq = 0;
        let cols = (0..ctx.choose(3)).map(|i| small(ctx, ["a", "b"][i], &mut seq, &[1, 4])).collect();
        let p = plan(5, cols);
        let d = Dir::new(ctx, "du");
        stale(ctx, &d, &p)?;
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let log = d.s.take_log();
        let (dat, idx) = name_of(&p.id);
        synced(&log, &[&dat, &idx])?;
        let ev = per_file(&log);
        let none = vec![];
        // the recorded history is the whole history: replayed, it gives the file on disk
        for f in [&dat, &idx] {
            let all = crash(ev.get(f).unwrap_or(&none), u64::MAX, false);
            diff(&format!("{}replaying the history of {}", HARNESS, f), &d.content(f)?, &all)?;
        }
        let f = pick_crash(ctx, &dat, ev.get(&dat).unwrap_or(&none));
        check_data(&p, &o, &f).map_err(after)?;
        let g = pick_crash(ctx, &idx, ev.get(&idx).unwrap_or(&none));
        check_index(&p, &o, &g).map_err(after)?;
        eq("the data file", &d.content(&dat)?, &f)?;
        eq("the index file", &d.content(&idx)?, &g)?;
        ctx.outcome(&(f, g));
        Ok(())
    }));
    // a second segment written into the same directory never harms the first
    out.push(Scenario::new("two-segments-every-crash", move |ctx| {
        let mut seq = 0;
        let p1 = plan(5, vec![small(ctx, "a", &mut seq, &[0, 1, 4])]);
        let p2 = plan(6, vec![small(ctx, "b", &mut seq, &[1, 3, 4])]);
        let d = Dir::new(ctx, "du");
        seen(ctx, &p1);
        seen(ctx, &p2);
        let o1 = written(&d, &p1)?;
        let l1 = d.s.take_log();
        let o2 = written(&d, &p2)?;
        let l2 = d.s.take_log();
        let (dat, idx) = name_of(&p1.id);
        let (dat2, idx2) = name_of(&p2.id);
        synced(&l1, &[&dat, &idx])?;
        synced(&l2, &[&dat2, &idx2])?;
        let (e1, e2) = (per_file(&l1), per_file(&l2));
        let none = vec![];
        // each file is judged by itself, so one file's crash states are enumerated at a time
        let k = ctx.choose(4);
        let f = [&dat, &idx, &dat2, &idx2][k];
        let mut ev = e1.get(f).unwrap_or(&none).clone();
        let more = e2.get(f).unwrap_or(&none);
        // of the second segment only complete histories are judged: before its sync returns
        // nothing is promised about it
        let cut = if k < 2 { more.len() - ctx.choose(more.len() + 1) } else { more.len() };
        ev.extend(more[..cut].iter().cloned());
        let c = pick_crash(ctx, f, &ev);
        ctx.state(&(&p1, &p2, k, cut, hash(&c)));
        ctx.outcome(&(k, hash(&c)));
        match k {
            0 => check_data(&p1, &o1, &c).map_err(|e| after(format!("first segment: {}", e))),
            1 => check_index(&p1, &o1, &c).map(|_| ()).map_err(|e| after(format!("first segment: {}", e))),
            2 => check_data(&p2, &o2, &c).map_err(after),
            _ => check_index(&p2, &o2, &c).map(|_| ()).map_err(after),
        }
    }));
    // many segments, one after the other, by one process: each is safe once its sync returned,
    // and stays so while the others are written
    let n = tier.of(5, 7);
    out.push(Scenario::new("many-segments-every-crash-point", move |ctx| {
        let mut seq = 0;
        let d = Dir::new(ctx, "du");
        let mut done: Vec<(Plan, Out, BTreeMap<String, Vec<Event>>)> = vec![];
        for i in 0..n {
            let nullable = ctx.choose(2) == 1;
            let k = if ctx.choose(2) == 1 { 4 } else { 0 };
            let p = plan(50 + i as u8, (0..i % 3).map(|c| col(["a", "b"][c], nullable, vec![shape(k, nullable, &mut seq)])).collect());
            seen(ctx, &p);
            let o = written(&d, &p)?;
            let log = d.s.take_log();
            let (dat, idx) = name_of(&p.id);
            synced(&log, &[&dat, &idx]).map_err(|e| format!("segment {}: {}", i, e))?;
            let ev = per_file(&log);
            // what later segments did to the files of earlier ones
            for (j, (q, _, have)) in done.iter_mut().enumerate() {
                let (dat, idx) = name_of(&q.id);
                for f in [dat, idx] {
                    if let Some(e) = ev.get(&f).and_then(|e| e.iter().find(|e| mutates(e))) {
                        let _ = e;
                        return Err(format!("writing segment {} changed {} of segment {}", i, f, j));
                    }
                    have.entry(f.clone()).or_default().extend(ev.get(&f).cloned().unwrap_or_default());
                }
            }
            done.push((p, o, ev));
            // nothing but what is certain survives
            for (j, (q, o, have)) in done.iter().enumerate() {
                let (dat, idx) = name_of(&q.id);
                let none = vec![];
                let f = crash(have.get(&dat).unwrap_or(&none), 0, false);
                check_data(q, o, &f).map_err(|e| after(format!("segment {} after segment {}: {}", j, i, e)))?;
                let g = crash(have.get(&idx).unwrap_or(&none), 0, false);
                check_index(q, o, &g).map_err(|e| after(format!("segment {} after segment {}: {}", j, i, e)))?;
                ctx.outcome(&(hash(&f), hash(&g)));
            }
        }
        Ok(())
    }));
    out
}

fn after(e: String) -> String {
    format!("sync had returned, but after a crash: {}", e)
}

/// Every change to the files precedes the return of sync and is followed by an fsync.
fn synced(log: &[Event], files: &[&String]) -> Result<(), String> {
    for f in files {
        check_synced(log, f, "sync")?;
        Session::check_named(log, f)?;
    }
    let mark = log.iter().rposition(|e| *e == Event::Mark("sync")).ok_or("no sync")?;
    match log[mark..].iter().find(|e| mutates(e)) {
        Some(Event::Write { file, .. }) => Err(format!("{} was written after sync had returned", file)),
        Some(_) => Err("a file was changed after sync had returned".into()),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- parts of other checks

/// C09 at the segment level: blocks of a column hold at least 128 KiB of data.
pub fn block_size_scenarios(tier: Tier) -> Vec<Scenario> {
    data_scenarios(tier, |_, d, p, o| {
        const BLOCK: usize = 128 << 10;
        let (dat, _) = files(d, p)?;
        // columns that were refused or left are nobody's
        for (c, o) in p.cols.iter().zip(&o.cols).filter(|(_, o)| !o.refused) {
            let rows = rows_of(c);
            let blocks = column_blocks(o, &dat)?;
            for (i, (id, b)) in blocks.iter().enumerate() {
                let (n, _) = ref_varint(b).ok_or("no data length")?;
                let n = n as usize;
                if i + 1 < blocks.len() && n < BLOCK {
                    return Err(format!(
                        "column {}: block {} of {} has {} data bytes, the block size is 128 KiB",
                        c.name, i, blocks.len(), n
                    ));
                }
                let last = rows[..=(*id as usize).min(rows.len() - 1)].iter().rev().flatten().find(|r| r.1 > 0);
                if let Some((_, l)) = last {
                    if n >= BLOCK && n - *l as usize >= BLOCK {
                        return Err(format!("column {}: block {} has {} data bytes", c.name, i, n));
                    }
                }
            }
        }
        Ok(())
    })
    .into_iter()
    .map(|mut s| {
        s.name = format!("segment-{}", s.name);
        s
    })
    .collect()
}

/// C11: two segment writers, interleaved between operations in every order.
pub fn interleaved_segments(tier: Tier) -> Vec<Scenario> {
    let mut out = threads_of_segments(tier);
    out.push(Scenario::new("segments-interleaved", move |ctx| {
        let mut seq = 0;
        let shapes: &[usize] = tier.of(&[1, 4], &[1, 2, 4]);
        let nullable = ctx.choose(2) == 1;
        let mk = |ctx: &mut Ctx, id: u8, name: &str, n: usize, seq: &mut u32| {
            let b = (0..n).map(|_| shape(ctx.pick(shapes), nullable, seq)).collect();
            plan(id, vec![col(name, nullable, b)])
        };
        let pa = mk(ctx, 20, "a", 2, &mut seq);
        let name = ctx.pick(&["a", "b"]);
        let pb = mk(ctx, 21, name, 1, &mut seq);
        let d = Dir::new(ctx, "il");
        let (ca, cb) = (std::cell::Cell::new(false), std::cell::Cell::new(false));
        let mut trace = vec![];
        let (oa, ob) = {
            let a = write_segment(None, &d.path, &pa, Point::Turn(&ca));
            let b = write_segment(None, &d.path, &pb, Point::Turn(&cb));
            let mut a = Box::pin(a);
            let mut b = Box::pin(b);
            let (mut ra, mut rb) = (None, None);
            let mut turn: Option<bool> = None;
            let (ctx, trace) = (&mut *ctx, &mut trace);
            no_panic(|| {
                block_on(futures::future::poll_fn(|cx| loop {
                    if ra.is_some() && rb.is_some() {
                        return Poll::Ready(());
                    }
                    let first = match turn {
                        Some(t) => t,
                        None => {
                            let t = if ra.is_some() {
                                false
                            } else if rb.is_some() {
                                true
                            } else {
                                ctx.choose(2) == 0
                            };
                            trace.push(t);
                            turn = Some(t);
                            t
                        }
                    };
                    let (c, p) = if first {
                        (&ca, a.as_mut().poll_life(cx))
                    } else {
                        (&cb, b.as_mut().poll_life(cx))
                    };
                    match p {
                        Poll::Ready(r) => {
                            *(if first { &mut ra } else { &mut rb }) = Some(r);
                            turn = None;
                        }
                        Poll::Pending if c.replace(false) => turn = None,
                        // waiting for the file system: the other one may not run meanwhile
                        Poll::Pending => return Poll::Pending,
                    }
                }))
            })?;
            (ra.unwrap()?, rb.unwrap()?)
        };
        ctx.steps(trace.len() as u64);
        ctx.step(|| format!("{} | {} schedule {:?}", describe(&pa), describe(&pb), trace));
        ctx.state(&(&pa, &pb, &trace));
        for (p, o) in [(&pa, &oa), (&pb, &ob)] {
            let (dat, idx) = files(&d, p)?;
            check_data(p, o, &dat)?;
            let x = check_index(p, o, &idx)?;
            let s = Dir::new(ctx, "solo");
            written(&s, p)?;
            let (sd, si) = files(&s, p)?;
            diff("data file compared to the segment written alone", &dat, &sd)?;
            eq("index compared to the segment written alone", &x, &read_index(&si)?)?;
            ctx.outcome(&(&dat, &x));
        }
        Ok(())
    }));
    out
}

/// Writers on threads of their own, each with its own runtime: one of them runs at a time,
/// until its next call to the file system; who runs next is the explorer's choice, within a
/// bound on the number of preemptions.
fn threads_of_segments(tier: Tier) -> Vec<Scenario> {
    static GROUP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1 << 20);
    let mut out = vec![];
    let bound = tier.of(2, 3);
    for lives in 2..=3usize {
        let bound = if lives == 3 { bound - 1 } else { bound };
        out.push(
            Scenario::new(format!("{}-threads-up-to-{}-preemptions", lives, bound), move |ctx| {
                let mut seq = 0;
                let kinds: &[(usize, usize)] = tier.of(&[(4, 2)], &[(1, 3), (4, 2), (7, 1), (6, 3)]);
                let (ka, kb) = ctx.pick(kinds);
                let plans: Vec<Plan> = (0..lives)
                    .map(|i| {
                        let k = if i % 2 == 0 { ka } else { kb };
                        let nullable = k % 2 == 0;
                        plan(30 + i as u8, vec![col(if i == 1 { "b" } else { "a" }, nullable, vec![shape(k, nullable, &mut seq)])])
                    })
                    .collect();
                let d = Dir::new(ctx, "th");
                d.s.st.lock().unwrap().hold = true;
                register(0);
                let mut trace: Vec<(usize, String, &'static str)> = vec![];
                let base = GROUP.fetch_add(lives, std::sync::atomic::Ordering::SeqCst);
                let groups: Vec<usize> = (base..base + lives).collect();
                let (ends, driven) = std::thread::scope(|sc| {
                    let handles: Vec<_> = plans
                        .iter()
                        .zip(&groups)
                        .map(|(p, &g)| {
                            let d = &d;
                            sc.spawn(move || {
                                register(g);
                                d.s.hold("", "start");
                                let r = no_panic(|| {
                                    let rt = tokio::runtime::Builder::new_current_thread()
                                        .max_blocking_threads(4)
                                        .on_thread_start(move || register(g))
                                        .on_thread_stop(unregister)
                                        .build()
                                        .expect("runtime");
                                    rt.block_on(write_segment(None, &d.path, p, if tier.thorough() { Point::Hold(&d.s) } else { Point::No }))
                                });
                                unregister();
                                r
                            })
                        })
                        .collect();
                    let driven = no_panic(|| -> Result<(), String> {
                        let (mut last, mut left) = (usize::MAX, bound);
                        for _ in 0..10_000 {
                            if !quiescent_all(&groups) {
                                return Err(format!("{}threads do not become quiescent", HARNESS));
                            }
                            let mut held = d.s.held();
                            if held.is_empty() {
                                return if handles.iter().all(|h| h.is_finished()) {
                                    Ok(())
                                } else {
                                    Err("a writer waits for something that never happens".into())
                                };
                            }
                            // whoever ran last goes on for free
                            held.sort_by_key(|h| (h.group != last, h.clone()));
                            let free = held[0].group != last;
                            let n = if free || left > 0 { held.len() } else { 1 };
                            let k = ctx.choose(n);
                            if k > 0 && !free {
                                left -= 1;
                            }
                            let h = held.swap_remove(k);
                            last = h.group;
                            ctx.step(|| format!("writer {}: {} {}", h.group - base, h.what, h.file));
                            trace.push((h.group - base, h.file, h.what));
                            ctx.state(&(ka, kb, &trace));
                            d.s.let_go(h.id);
                        }
                        Err("the writers never end".into())
                    });
                    d.s.open_gate();
                    let ends: Vec<_> = handles
                        .into_iter()
                        .map(|h| h.join().map_err(|_| "a writer's thread died".to_string()).and_then(|r| r))
                        .collect();
                    (ends, driven)
                });
                driven??;
                ctx.steps(trace.len() as u64);
                let mut names = vec![];
                for (p, o) in plans.iter().zip(ends) {
                    let o = o??;
                    let (dat, idx) = files(&d, p)?;
                    check_data(p, &o, &dat)?;
                    let x = check_index(p, &o, &idx)?;
                    let s = Dir::new(ctx, "solo");
                    written(&s, p)?;
                    let (sd, si) = files(&s, p)?;
                    diff("data file compared to the segment written alone", &dat, &sd)?;
                    eq("index compared to the segment written alone", &x, &read_index(&si)?)?;
                    ctx.outcome(&(&dat, &x));
                    names.extend(s.list());
                }
                names.sort();
                diff("files", &d.list(), &names)
            })
            .isolated(),
        );
    }
    out
}

trait PollLife {
    type Out;
    fn poll_life(self, cx: &mut std::task::Context<'_>) -> Poll<Self::Out>;
}
impl<F: std::future::Future> PollLife for std::pin::Pin<&mut F> {
    type Out = F::Output;
    fn poll_life(self, cx: &mut std::task::Context<'_>) -> Poll<F::Output> {
        self.poll(cx)
    }
}

type Clean = (Vec<u8>, Index);

/// Longer files of an earlier time under the names of the segment.
fn leave_older(d: &Dir, p: &Plan, older: bool) {
    if older {
        let (dat, idx) = name_of(&p.id);
        raw_write(&d.file(&dat), &[0xEE; 300_000]);
        raw_write(&d.file(&idx), &[0xEE; 5000]);
    }
}

/// The files and file system calls of a segment written without faults.
fn unharmed(ctx: &mut Ctx, p: &Plan, older: bool) -> Result<(Clean, Vec<(String, Call, usize)>), String> {
    let d = Dir::new(ctx, "sf");
    leave_older(&d, p, older);
    let o = written(&d, p)?;
    let (dat, idx) = files(&d, p)?;
    check_data(p, &o, &dat)?;
    let (dn, xn) = name_of(&p.id);
    synced(&d.s.take_log(), &[&dn, &xn])?;
    Ok(((dat, read_index(&idx)?), d.s.counts()))
}

/// Writes the segment again with one of its calls failing in one of the given ways.
fn failing(
    ctx: &mut Ctx,
    p: &Plan,
    clean: &Clean,
    counts: &[(String, Call, usize)],
    older: bool,
    acts: impl Fn(Call) -> Vec<Act>,
) -> Result<(), String> {
    let all: Vec<Fault> = counts
        .iter()
        .flat_map(|(file, call, n)| {
        let v = acts(*call);
        (0..*n).flat_map(move |nth| {
            let (file, call) = (file.clone(), *call);
            v.clone().into_iter().map(move |act| Fault { file: file.clone(), call, nth, act })
        })
        })
        .collect();
    let f = ctx.pick(&all);
    let d = Dir::new(ctx, "sf");
    leave_older(&d, p, older);
    d.s.st.lock().unwrap().faults = vec![f.clone()];
    let r = write_plan(&d, p)?;
    seen(ctx, p);
    ctx.step(|| format!("{:?} -> {:?}", f, r.as_ref().err()));
    ctx.state(&(&p, &f));
    ctx.outcome(&(&f, r.as_ref().err()));
    match r {
        Err(_) if d.s.hits() > 0 => {
            // close covers everything written before it
            let closed = d.s.take_log().contains(&Event::Mark("close"));
            if closed && f.call == Call::Write {
                return Err(format!("with {:?} close reported success", f));
            }
            Ok(())
        }
        Err(e) => Err(format!("failed without a file system error: {}", e)),
        Ok(o) => {
            let why = |e: String| format!("with {:?} every operation reported success, but {}", f, e);
            let (dat, idx) = files(&d, p).map_err(why)?;
            let why = |e: String| format!("with {:?} every operation reported success, but {}", f, e);
            check_data(p, &o, &dat).map_err(why)?;
            diff("the data file", &dat, &clean.0).map_err(why)?;
            let x = check_index(p, &o, &idx).map_err(why)?;
            eq("the index", &x, &clean.1).map_err(why)?;
            let log = d.s.take_log();
            let (dat, idx) = name_of(&p.id);
            check_synced(&log, &dat, "sync").map_err(why)?;
            check_synced(&log, &idx, "sync").map_err(why)?;
            Session::check_named(&log, &dat).map_err(why)?;
            Session::check_named(&log, &idx).map_err(why)
        }
    }
}

/// C13: every file system call of a segment's life failing.
pub fn faults(tier: Tier) -> Vec<Scenario> {
    let mut out = vec![Scenario::new("segment-writer", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(3);
        let shapes: &[usize] = tier.of(&[1, 3, 4], &[0, 1, 2, 3, 4, 5, 6, 7]);
        let cols: Vec<Col> = (0..k)
            .map(|i| {
                let nullable = ctx.choose(2) == 1;
                let n = 1 + ctx.choose(2);
                let b = (0..n).map(|_| shape(ctx.pick(shapes), nullable, &mut seq)).collect();
                col(["a", "b"][i], nullable, b)
            })
            .collect();
        let p = plan(30, cols);
        let (clean, counts) = unharmed(ctx, &p, false)?;
        failing(ctx, &p, &clean, &counts, false, |c| match c {
            Call::Open | Call::Seek => vec![Act::Fail(EIO)],
            Call::Write | Call::Sync => vec![Act::Fail(EIO), Act::FailOn(ENOSPC)],
            _ => vec![],
        })
    })];
    out.push(Scenario::new("segment-over-older-files", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(tier.of(2, 3));
        let cols = (0..k).map(|i| col(["a", "b"][i], i == 0, vec![shape(3, i == 0, &mut seq)])).collect();
        let p = plan(30, cols);
        let (clean, counts) = unharmed(ctx, &p, true)?;
        failing(ctx, &p, &clean, &counts, true, |c| match c {
            Call::Open | Call::Truncate => crate::util::every_errno().into_iter().map(Act::Fail).collect(),
            _ => vec![Act::Fail(EIO), Act::FailOn(ENOSPC)],
        })
    }));
    // every error the kernel can answer with
    let every: &'static [i32] = Box::leak(crate::util::every_errno().into_boxed_slice());
    out.push(Scenario::new("segment-every-errno", move |ctx| {
        let mut seq = 0;
        let k = ctx.choose(tier.of(2, 3));
        let cols = (0..k).map(|i| col(["a", "b"][i], i == 0, vec![shape(3, i == 0, &mut seq), shape(4, i == 0, &mut seq)])).collect();
        let p = plan(30, cols);
        let (clean, counts) = unharmed(ctx, &p, false)?;
        let errno = ctx.pick(every);
        failing(ctx, &p, &clean, &counts, false, |_| vec![Act::Fail(errno), Act::FailOn(errno)])
    }));
    out
}

/// C20 at the segment level.
pub fn column_encodings(_tier: Tier) -> Vec<Scenario> {
    vec![Scenario::new("segment-columns", move |ctx| {
        let mut seq = 0;
        let mut cols = vec![];
        for name in ["a", "b"] {
            let nullable = ctx.choose(2) == 1;
            let enc = ctx.choose(5) as i32;
            let mut c = col(name, nullable, vec![shape(1 + ctx.choose(3), nullable, &mut seq)]);
            c.enc = enc;
            cols.push(c);
        }
        let p = plan(40, cols);
        let d = Dir::new(ctx, "ce");
        seen(ctx, &p);
        let o = written(&d, &p)?;
        let (dat, idx) = files(&d, &p)?;
        check_data(&p, &o, &dat)?;
        let x = check_index(&p, &o, &idx)?;
        ctx.outcome(&x);
        for (c, o) in p.cols.iter().zip(&o.cols) {
            match c.enc {
                0 | 4 if o.refused && c.enc == 0 => return Err("the raw encoding was refused".into()),
                1..=3 if !o.refused => {
                    return Err(format!("encoding {} was accepted for column {}", c.enc, c.name))
                }
                4 if !o.refused => {
                    eq("encoder layout of a Snappy column", &x.cols[&c.name].layout[..], &[6u64][..])?;
                    let b = column_blocks(o, &dat)?;
                    if is_known("snappy") && b.iter().all(|b| b.0 == 43243 && b.1 == b"snappy") {
                        ctx.known(
                            "snappy",
                            "the Snappy encoding is accepted for binary columns but every buffer is replaced by the bytes \"snappy\" under row id 43243".into(),
                        );
                    } else if b.last().map_or(0, |b| b.0 as usize + 1) != rows_of(c).len() {
                        return Err(format!("Snappy column {}: its blocks do not cover its rows", c.name));
                    }
                }
                _ => {}
            }
        }
        Ok(())
    })]
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    let mk = |id, rule, assumptions, scenarios| {
        Some(Check { id, level: "model_checking", rule, assumptions, scenarios })
    };
    match id {
        "C16" => mk(
            "C16",
            "every segment of up to the stated number of columns and batches over eight batch shapes (empty, tiny, nulls, 200 rows, several that straddle, reach or far exceed the 128 KiB block size) and every sequence of values around the block boundary; the data file is cut at the recorded offsets and decoded by an independent reader",
            vec!["block offsets are taken from the in-memory block index of each column (its persistence is C22)", "columns are binary: SegmentWriter offers no other kind"],
            data_scenarios(tier, judge_data),
        ),
        "C17" => mk(
            "C17",
            "every combination of the listed segment and column attribute values, several columns with differing attributes, and up to 1000 columns; the index file is read by an independent decoder of the footer and of the protobuf wire format with the field numbers of the schema fixed in the checker",
            vec!["metadata is compared field by field, not byte by byte: map order is unspecified"],
            metadata_scenarios(tier),
        ),
        "C18" => mk(
            "C18",
            "every byte value at every position of the segment id over two backgrounds, and every ordered choice of several close ids in one directory; the whole scratch tree is listed after every segment",
            vec!["file names are case sensitive"],
            naming(tier),
        ),
        "C19" => mk(
            "C19",
            "every crash point of the recorded file system history of one or two segments x every surviving subset of the last unsynced writes of each file (older ones together) x torn last write; once sync has returned, the segment on disk is complete in every such state, and later segments never change it",
            vec!["a successful fsync makes all earlier writes of that file durable; unsynced writes may survive in any subset; a new name is durable only once its directory was synced after it appeared"],
            durability(tier),
        ),
        "C22" => mk(
            "C22",
            "the same segments as C16: the block index entries of every column are compared with the bytes in the file and with the rows appended, independently of a full decode; and the range recorded in the index file must hold them",
            vec!["an entry is (last row id, end offset) of a block; a block starts where the previous one of its column ends"],
            {
                let mut s = data_scenarios(tier, judge_index);
                s.push(huge_segment(tier));
                s
            },
        ),
        _ => None,
    }
}
