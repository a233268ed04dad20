//! C01: column buffers record exactly the appended history.
//! C02: copying spans between buffers preserves rows.

use crate::explore::*;
use crate::store::verif::buffers::*;
use crate::util::*;
use crate::{Check, Tier};

/// Values used by the harness: `make(code)` is injective on small codes and covers
/// extremes and every byte pattern class.
pub trait Prim: Clone + Send + Sync + 'static {
    fn make(code: u32) -> Self;
    fn bits(&self) -> u64;
    const NAME: &'static str;
}
impl Prim for i32 {
    fn make(c: u32) -> i32 {
        match c {
            0 => 0,
            1 => -1,
            2 => i32::MIN,
            3 => i32::MAX,
            4 => 0x0102_0304,
            c if c >= SPECIAL => [1, -2, 127, 128, 255, 256, -128, 32_768, 65_535, 65_536, 1 << 24, i32::MIN + 1][(c - SPECIAL) as usize % 12],
            c => (mix(c) >> 16) as i32,
        }
    }
    fn bits(&self) -> u64 {
        *self as u32 as u64
    }
    const NAME: &'static str = "i32";
}
impl Prim for i64 {
    fn make(c: u32) -> i64 {
        match c {
            0 => 0,
            1 => -1,
            2 => i64::MIN,
            3 => i64::MAX,
            4 => 0x0102_0304_0506_0708,
            c if c >= SPECIAL => {
                [1, -2, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, u32::MAX as i64, 1 << 53, i64::MIN + 1, 1 << 62][(c - SPECIAL) as usize % 12]
            }
            c => mix(c) as i64,
        }
    }
    fn bits(&self) -> u64 {
        *self as u64
    }
    const NAME: &'static str = "i64";
}
impl Prim for u64 {
    fn make(c: u32) -> u64 {
        match c {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << 63,
            3 => 0x8000_0000,
            4 => 0x0102_0304_0506_0708,
            c if c >= SPECIAL => {
                [1, 127, 128, 255, 256, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 53, (1 << 63) - 1, (1 << 63) + 1, u64::MAX - 1][(c - SPECIAL) as usize % 12]
            }
            c => mix(c),
        }
    }
    fn bits(&self) -> u64 {
        *self
    }
    const NAME: &'static str = "u64";
}
impl Prim for f64 {
    fn make(c: u32) -> f64 {
        match c {
            0 => 0.0,
            1 => -0.0,
            2 => f64::from_bits(0x7ff8_0000_0000_1234),
            3 => f64::NEG_INFINITY,
            4 => f64::MIN_POSITIVE / 4.0,
            c if c >= SPECIAL => f64::from_bits(
                [
                    1.0f64.to_bits(),
                    (-1.0f64).to_bits(),
                    f64::INFINITY.to_bits(),
                    f64::NAN.to_bits(),
                    // signalling, negative, with a payload; the smallest and the largest
                    0x7ff0_0000_0000_0001,
                    0xfff8_0000_0000_0000,
                    0xffff_ffff_ffff_ffff,
                    1,
                    0x8000_0000_0000_0001,
                    f64::MAX.to_bits(),
                    f64::MIN_POSITIVE.to_bits(),
                    0.1f64.to_bits(),
                ][(c - SPECIAL) as usize % 12],
            ),
            c => f64::from_bits(mix(c)),
        }
    }
    fn bits(&self) -> u64 {
        self.to_bits()
    }
    const NAME: &'static str = "f64";
}

/// A column under test together with its reference model.
pub trait Col {
    fn new(nullable: bool) -> Self;
    fn push(&mut self, code: u32);
    fn null(&mut self);
    fn clear(&mut self);
    fn check(&self) -> Result<(), String>;
    fn rows(&self) -> usize;
    fn key(&self) -> u64;
    const NAME: &'static str;
}

pub struct PrimCol<T: Prim> {
    pub buf: PrimitiveBuffer<T>,
    pub valid: Vec<bool>,
    pub vals: Vec<u64>,
    pub nullable: bool,
}

fn check_validity(v: Option<&Bitmap>, nullable: bool, valid: &[bool]) -> Result<(), String> {
    eq("has validity bitmap", v.is_some(), nullable)?;
    if let Some(b) = v {
        eq("validity length", b.len(), valid.len())?;
        for (i, want) in valid.iter().enumerate() {
            if b.is_set(i) != *want {
                return Err(format!("row {} validity is {} instead of {}", i, !want, want));
            }
        }
    }
    Ok(())
}

impl<T: Prim> Col for PrimCol<T> {
    const NAME: &'static str = T::NAME;
    fn new(nullable: bool) -> Self {
        PrimCol {
            buf: PrimitiveBuffer::new(nullable),
            valid: vec![],
            vals: vec![],
            nullable,
        }
    }
    fn push(&mut self, code: u32) {
        let v = T::make(code);
        self.vals.push(v.bits());
        self.valid.push(true);
        self.buf.append(v);
    }
    fn null(&mut self) {
        self.valid.push(false);
        self.buf.append_null();
    }
    fn clear(&mut self) {
        self.valid.clear();
        self.vals.clear();
        self.buf.clear();
    }
    fn check(&self) -> Result<(), String> {
        let b = &self.buf;
        eq("is_nullable", b.is_nullable(), self.nullable)?;
        eq("len", b.len(), self.vals.len())?;
        eq("num_values", b.num_values(), self.valid.len())?;
        eq("has_nulls", b.has_nulls(), self.valid.len() != self.vals.len())?;
        let got: Vec<u64> = b.values().iter().map(|v| v.bits()).collect();
        diff("values", &got, &self.vals)?;
        check_validity(b.validity(), self.nullable, &self.valid)
    }
    fn rows(&self) -> usize {
        self.valid.len()
    }
    fn key(&self) -> u64 {
        hash(&(T::NAME, self.nullable, &self.valid, &self.vals))
    }
}

pub struct BinCol {
    pub buf: BinaryBuffer,
    pub valid: Vec<bool>,
    pub vals: Vec<Vec<u8>>,
    pub nullable: bool,
}

const BIN_LENS: [usize; 8] = [0, 1, 3, 2, 17, 0, 5, 300];

impl Col for BinCol {
    const NAME: &'static str = "binary";
    fn new(nullable: bool) -> Self {
        BinCol {
            buf: BinaryBuffer::new(nullable),
            valid: vec![],
            vals: vec![],
            nullable,
        }
    }
    fn push(&mut self, code: u32) {
        let len = if code < SPECIAL { BIN_LENS[code as usize % BIN_LENS.len()] } else { 20 };
        let v = make_bytes(code, len);
        self.buf.append(&v);
        self.vals.push(v);
        self.valid.push(true);
    }
    fn null(&mut self) {
        self.valid.push(false);
        self.buf.append_null();
    }
    fn clear(&mut self) {
        self.valid.clear();
        self.vals.clear();
        self.buf.clear();
    }
    fn check(&self) -> Result<(), String> {
        check_binary(&self.buf, self.nullable, &self.valid, &self.vals)
    }
    fn rows(&self) -> usize {
        self.valid.len()
    }
    fn key(&self) -> u64 {
        hash(&(self.nullable, &self.valid, &self.vals))
    }
}

pub fn check_binary(
    b: &BinaryBuffer,
    nullable: bool,
    valid: &[bool],
    vals: &[Vec<u8>],
) -> Result<(), String> {
    eq("is_nullable", b.is_nullable(), nullable)?;
    eq("len", b.len(), vals.len())?;
    eq("num_values", b.num_values(), valid.len())?;
    eq("has_nulls", b.has_nulls(), valid.len() != vals.len())?;
    eq("number of offsets", b.offsets().len(), vals.len() + 1)?;
    eq("first offset", b.offsets()[0], 0)?;
    for (i, v) in vals.iter().enumerate() {
        let (s, e) = (b.offsets()[i] as usize, b.offsets()[i + 1] as usize);
        if b.item_len(i) as usize != v.len() {
            return Err(format!("item_len({}) is {} instead of {}", i, b.item_len(i), v.len()));
        }
        if s > e || e > b.data().len() || &b.data()[s..e] != v.as_slice() {
            return Err(format!("value {} differs", i));
        }
    }
    eq("data length", b.data().len(), vals.iter().map(|v| v.len()).sum::<usize>())?;
    check_validity(b.validity(), nullable, valid)
}

pub struct BoolCol {
    pub buf: BoolBuffer,
    pub valid: Vec<bool>,
    pub vals: Vec<bool>,
    pub nullable: bool,
}

impl Col for BoolCol {
    const NAME: &'static str = "bool";
    fn new(nullable: bool) -> Self {
        BoolCol {
            buf: BoolBuffer::new(nullable),
            valid: vec![],
            vals: vec![],
            nullable,
        }
    }
    fn push(&mut self, code: u32) {
        let v = code == 0 || (code > 1 && mix(code) >> 33 & 1 == 1);
        self.buf.append(v);
        self.vals.push(v);
        self.valid.push(true);
    }
    fn null(&mut self) {
        self.valid.push(false);
        self.buf.append_null();
    }
    fn clear(&mut self) {
        self.valid.clear();
        self.vals.clear();
        self.buf.clear();
    }
    fn check(&self) -> Result<(), String> {
        let b = &self.buf;
        eq("is_nullable", b.is_nullable(), self.nullable)?;
        eq("len", b.len(), self.valid.len())?;
        eq("has_nulls", b.has_nulls(), self.valid.len() != self.vals.len())?;
        eq("number of stored values", b.values().len(), self.vals.len())?;
        for (i, v) in self.vals.iter().enumerate() {
            if b.values().is_set(i) != *v {
                return Err(format!("value {} is {} instead of {}", i, !v, v));
            }
        }
        if self.nullable {
            check_validity(Some(b.validity()), true, &self.valid)?;
        }
        Ok(())
    }
    fn rows(&self) -> usize {
        self.valid.len()
    }
    fn key(&self) -> u64 {
        hash(&(self.nullable, &self.valid, &self.vals))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Val(u32),
    Null,
    Clear,
    /// k rows following a pattern: 0 all values, 1 all nulls, 2 alternating, 3 v v n,
    /// 4 null first then values
    Bulk(usize, u8),
}

fn apply<C: Col>(c: &mut C, op: Op) {
    match op {
        Op::Val(v) => c.push(v),
        Op::Null => c.null(),
        Op::Clear => c.clear(),
        Op::Bulk(k, p) => {
            for i in 0..k {
                if pattern_valid(p, i) {
                    let code = c.rows() as u32 + 5;
                    c.push(code)
                } else {
                    c.null()
                }
            }
        }
    }
}

/// Runs of (0) one repeated value, (1) different values, (2) nulls.
fn push_runs<C: Col>(c: &mut C, runs: &[(usize, usize)]) {
    for (kind, n) in runs {
        for _ in 0..*n {
            match kind {
                0 => c.push(3),
                1 => {
                    let code = c.rows() as u32 + 5;
                    c.push(code)
                }
                _ => c.null(),
            }
        }
    }
}

fn history<C: Col>(ctx: &mut Ctx, nullable: bool, ops: &[Op], depth: usize) -> Result<(), String> {
    let mut c = C::new(nullable);
    c.check().map_err(|e| format!("new buffer: {}", e))?;
    for _ in 0..depth {
        let op = ctx.pick(ops);
        ctx.step(|| format!("{} nullable={} {:?}", C::NAME, nullable, op));
        apply(&mut c, op);
        c.check()
            .map_err(|e| format!("after {:?} ({} rows): {}", op, c.rows(), e))?;
        ctx.state(&(C::NAME, c.key()));
    }
    ctx.outcome(&c.key());
    Ok(())
}

fn small<C: Col + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        let depth = if nullable { tier.of(9, 11) } else { tier.of(10, 13) };
        let mut ops = vec![Op::Val(0), Op::Val(1), Op::Clear];
        if nullable {
            ops.insert(1, Op::Null);
        }
        out.push(Scenario::new(
            format!("{}-nullable={}-small", C::NAME, nullable),
            move |ctx| history::<C>(ctx, nullable, &ops, depth),
        ));
    }
}

/// Values somebody could treat differently, in every order, before and after a clear.
fn special<C: Col + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    let depth = tier.of(3, 4);
    for nullable in [true, false] {
        out.push(Scenario::new(format!("{}-nullable={}-special-values", C::NAME, nullable), move |ctx| {
            let mut c = C::new(nullable);
            let cleared = ctx.choose(2) == 1;
            if cleared {
                (0..SPECIALS).for_each(|k| c.push(SPECIAL + k));
                c.check()?;
                c.clear();
            }
            for _ in 0..depth {
                match ctx.choose(SPECIALS as usize + 1 + nullable as usize) as u32 {
                    k if k < SPECIALS => c.push(SPECIAL + k),
                    SPECIALS => c.push(0),
                    _ => c.null(),
                }
            }
            c.check().map_err(|e| format!("cleared before: {}: {}", cleared, e))?;
            ctx.step(|| format!("{} nullable={} cleared before: {}", C::NAME, nullable, cleared));
            ctx.state(&(C::NAME, cleared, c.key()));
            ctx.outcome(&c.key());
            Ok(())
        }));
    }
}

fn bulk<C: Col + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        let sizes: &[usize] = tier.of(
            &[8, 9, 1024, 8191, 8192, 8193, 16385],
            &[7, 8, 9, 63, 64, 65, 255, 256, 1023, 1024, 1025, 2047, 4096, 8183, 8184, 8185, 8191, 8192, 8193, 16383, 16384, 16385, 32769],
        );
        let pats: &[u8] = if nullable { &[0, 1, 2, 3] } else { &[0] };
        let mut ops = vec![Op::Val(1), Op::Clear];
        if nullable {
            ops.push(Op::Null);
        }
        for s in sizes {
            for p in pats {
                ops.push(Op::Bulk(*s, *p));
            }
        }
        // Every sequence of `depth` operations with one shape: bulk operations surrounded
        // by small ones, so that growth and reuse boundaries are met from both sides.
        let depth = tier.of(3, 3);
        out.push(Scenario::new(
            format!("{}-nullable={}-bulk", C::NAME, nullable),
            move |ctx| history::<C>(ctx, nullable, &ops, depth),
        ));
        // beyond 16-bit row counts and data sizes
        let pats3: Vec<u8> = pats.to_vec();
        out.push(Scenario::new(
            format!("{}-nullable={}-huge", C::NAME, nullable),
            move |ctx| {
                let mut c = C::new(nullable);
                let giant = ctx.choose(2) == 1;
                for i in 0..2 {
                    if i == 1 && ctx.choose(2) == 1 {
                        ctx.step(|| "clear".into());
                        c.clear();
                        c.check().map_err(|e| format!("after clear: {}", e))?;
                    }
                    let n = if giant { 1_100_001 } else { ctx.pick(&[65535usize, 65536, 65537, 150_000, 1, 40]) };
                    let op = Op::Bulk(n, ctx.pick(&pats3));
                    ctx.step(|| format!("{} nullable={} {:?}", C::NAME, nullable, op));
                    apply(&mut c, op);
                    c.check()
                        .map_err(|e| format!("after {:?} ({} rows): {}", op, c.rows(), e))?;
                    ctx.state(&(C::NAME, c.key()));
                }
                ctx.outcome(&c.key());
                Ok(())
            },
        ));
        // runs of nulls, equal values and different values around word boundaries
        let segs = tier.of(3, 3);
        let lens: &'static [usize] = tier.of(&RUN_LENS, &MORE_RUN_LENS);
        out.push(Scenario::new(format!("{}-nullable={}-runs", C::NAME, nullable), move |ctx| {
            let mut c = C::new(nullable);
            if ctx.choose(2) == 1 {
                apply(&mut c, Op::Bulk(700, if nullable { 2 } else { 0 }));
                c.clear();
            }
            let runs = pick_runs(ctx, segs, 2 + nullable as usize, lens);
            push_runs(&mut c, &runs);
            ctx.step(|| format!("{} nullable={} runs {:?}", C::NAME, nullable, runs));
            ctx.state(&(C::NAME, c.key()));
            ctx.outcome(&c.key());
            c.check()
        }));
        // clear and refill: bulk, clear, then every short history on the reused buffer
        let mut ops2 = vec![Op::Val(0), Op::Val(1), Op::Clear];
        if nullable {
            ops2.insert(1, Op::Null);
        }
        let pats2: Vec<u8> = pats.to_vec();
        let d2 = tier.of(5, 7);
        let sizes2: Vec<usize> = vec![1, 8, 9, 24, 1024, 8192, 8193, 20000];
        out.push(Scenario::new(
            format!("{}-nullable={}-reuse", C::NAME, nullable),
            move |ctx| {
                let mut c = C::new(nullable);
                let (s, p) = (ctx.pick(&sizes2), ctx.pick(&pats2));
                ctx.step(|| format!("{} bulk {} pattern {}", C::NAME, s, p));
                apply(&mut c, Op::Bulk(s, p));
                ctx.step(|| "clear".into());
                c.clear();
                c.check().map_err(|e| format!("after clear: {}", e))?;
                for _ in 0..d2 {
                    let op = ctx.pick(&ops2);
                    ctx.step(|| format!("{:?}", op));
                    apply(&mut c, op);
                    c.check().map_err(|e| format!("reused buffer, {:?}: {}", op, e))?;
                    ctx.state(&(s, p, C::NAME, c.key()));
                }
                // refill past every boundary again
                apply(&mut c, Op::Bulk(s + 9, pats2[pats2.len() - 1]));
                ctx.step(|| "refill".into());
                c.check().map_err(|e| format!("refilled buffer: {}", e))?;
                ctx.outcome(&c.key());
                Ok(())
            },
        ));
    }
    out.push(Scenario::new(
        format!("{}-null-on-non-nullable", C::NAME),
        move |ctx| {
            let mut c = C::new(false);
            let n = ctx.choose(10);
            for i in 0..n {
                c.push(i as u32);
            }
            let clear = ctx.choose(2) == 1;
            if clear {
                c.clear();
            }
            ctx.step(|| format!("{} values, clear={}, null append", n, clear));
            ctx.state(&(n, clear));
            match no_panic(|| c.null()) {
                Ok(()) => Err("null accepted by a non-nullable buffer".into()),
                Err(_) => Ok(()),
            }
        },
    ));
}

fn bitmap_check(b: &Bitmap, m: &[bool]) -> Result<(), String> {
    check_validity(Some(b), true, m)?;
    if no_panic(|| b.is_set(m.len())).is_ok() {
        return Err(format!("is_set({}) answered beyond the end", m.len()));
    }
    Ok(())
}

/// Values far longer than the others, in every order with empty ones, nulls and clears.
fn large_values(tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        let depth = tier.of(4, 5);
        out.push(Scenario::new(format!("binary-nullable={}-large-values", nullable), move |ctx| {
            let lens = [0usize, 3, 65_535, 65_536, (1 << 20) + 1, 2_500_007];
            let mut c = BinCol::new(nullable);
            for i in 0..depth {
                let k = ctx.choose(lens.len() + 1 + nullable as usize);
                ctx.step(|| match lens.get(k) {
                    Some(l) => format!("append {} bytes", l),
                    None if k == lens.len() => "clear".into(),
                    None => "append null".into(),
                });
                match lens.get(k) {
                    Some(l) => {
                        let v = make_bytes(i as u32 + 5, *l);
                        c.buf.append(&v);
                        c.vals.push(v);
                        c.valid.push(true);
                    }
                    None if k == lens.len() => c.clear(),
                    None => c.null(),
                }
            }
            c.check()?;
            let key: Vec<usize> = c.vals.iter().map(|v| v.len()).collect();
            ctx.state(&(nullable, &key, &c.valid));
            ctx.outcome(&(key, &c.valid));
            // and copied, whole and in two spans
            let n = c.vals.len();
            for cut in 0..=n {
                let mut dst = BinCol::new(nullable);
                dst.push(7);
                let mut pos = 0;
                for (s, e) in [(0, cut), (cut, n)] {
                    pos = dst.buf.append_from(&c.buf, s, e, if nullable { pos } else { s });
                    dst.vals.extend_from_slice(&c.vals[s..e]);
                }
                let mut left = n;
                for v in c.valid.iter() {
                    if left == 0 {
                        break;
                    }
                    dst.valid.push(*v);
                    left -= *v as usize;
                }
                dst.check().map_err(|e| format!("copy cut at value {}: {}", cut, e))?;
            }
            c.check().map_err(|e| format!("source after copies: {}", e))
        }));
    }
}

/// Every number of rows, and every length of a binary value.
fn every_count<C: Col + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    let counts = sweep(tier.of(2100, 9000), tier.of(16, 20));
    for nullable in [true, false] {
        let counts = counts.clone();
        out.push(Scenario::new(format!("{}-nullable={}-every-count", C::NAME, nullable), move |ctx| {
            let n = ctx.pick(&counts);
            let p = if nullable { ctx.choose(4) as u8 } else { 0 };
            let mut c = C::new(nullable);
            apply(&mut c, Op::Bulk(n, p));
            c.check()?;
            c.push(1);
            if nullable {
                c.null();
            }
            c.check().map_err(|e| format!("rows after {} rows: {}", n, e))?;
            ctx.step(|| format!("{} rows of pattern {}, then a few, cleared, then a few", n, p));
            ctx.state(&(C::NAME, n, p));
            ctx.outcome(&c.key());
            c.clear();
            apply(&mut c, Op::Bulk(9, if nullable { 3 } else { 0 }));
            c.check().map_err(|e| format!("cleared after {} rows: {}", n, e))
        }));
    }
}

fn every_length(tier: Tier, out: &mut Vec<Scenario>) {
    let lens = sweep(tier.of(4200, 20_000), tier.of(18, 23));
    for nullable in [true, false] {
        let lens = lens.clone();
        out.push(Scenario::new(format!("binary-nullable={}-every-length", nullable), move |ctx| {
            let n = ctx.pick(&lens);
            ctx.step(|| format!("values of {}, 3, 0 and {} bytes", n, n));
            ctx.state(&(nullable, n));
            ctx.outcome(&n);
            let mut c = BinCol::new(nullable);
            for (i, l) in [n, 3, 0, n].into_iter().enumerate() {
                if nullable && i == 2 {
                    c.null();
                }
                let v = make_bytes(i as u32 + 5, l);
                c.buf.append(&v);
                c.vals.push(v);
                c.valid.push(true);
                c.check()?;
            }
            let mut dst = BinCol::new(nullable);
            dst.push(7);
            let (mut pos, mut row) = (0, 0);
            for (s, e) in [(0, 1), (1, 4)] {
                pos = dst.buf.append_from(&c.buf, s, e, if nullable { pos } else { s });
                dst.vals.extend_from_slice(&c.vals[s..e]);
                let mut left = e - s;
                while left > 0 {
                    dst.valid.push(c.valid[row]);
                    left -= c.valid[row] as usize;
                    row += 1;
                }
                dst.check().map_err(|x| format!("copy of values {}..{}: {}", s, e, x))?;
            }
            Ok(())
        }));
    }
}

/// Spans of every number of values, at every distance from the start.
fn every_span<C: Span + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    let counts = sweep(tier.of(1100, 9000), tier.of(14, 18));
    for nullable in [true, false] {
        let counts = counts.clone();
        out.push(Scenario::new(format!("{}-nullable={}-every-span", C::NAME, nullable), move |ctx| {
            let n = ctx.pick(&counts);
            let p = if nullable { ctx.choose(4) as u8 } else { 0 };
            let mut src = C::new(nullable);
            apply(&mut src, Op::Bulk(n, p));
            src.push(1);
            apply(&mut src, Op::Bulk(9, p));
            src.push(1);
            let mut dst = C::new(nullable);
            let pre = ctx.pick(&[0usize, 5, 16]);
            if pre != 5 {
                apply(&mut dst, Op::Bulk(n + 40, 0));
                dst.clear();
            }
            apply(&mut dst, Op::Bulk(pre, if nullable { 3 } else { 0 }));
            let first = match ctx.choose(2) {
                0 => src.items(),
                _ => n.min(src.items() - 1).max(1),
            };
            ctx.step(|| format!("{} rows of pattern {} and a few more, the first span of {} values", n, p, first));
            let mut k = 0;
            copy_all(ctx, &mut dst, &src, nullable, false, |_, left| {
                k += 1;
                if k == 1 { first } else { left }
            })?;
            ctx.outcome(&dst.key());
            Ok(())
        }));
    }
}

/// A buffer filled and cleared very many times: nothing of its earlier lives shows.
fn many_lives<C: Col + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        out.push(Scenario::new(format!("{}-nullable={}-many-lives", C::NAME, nullable), move |ctx| {
            let n = ctx.pick(tier.of(&[300usize, 70_000], &[300, 5000, 70_000, 300_000]));
            let sizes = ctx.pick(&[[0usize, 1, 2], [1, 1, 1], [3, 9, 0], [17, 0, 1]]);
            let pat = if nullable { ctx.pick(&[0u8, 1, 2, 4]) } else { 0 };
            ctx.step(|| format!("{} nullable={} {} lives of {:?} rows, pattern {}", C::NAME, nullable, n, sizes, pat));
            ctx.state(&(n, sizes, pat));
            let mut c = C::new(nullable);
            for i in 0..n {
                apply(&mut c, Op::Bulk(sizes[i % 3], pat));
                c.check().map_err(|e| format!("life {}: {}", i, e))?;
                c.clear();
                if i % 16 == 0 {
                    c.check().map_err(|e| format!("life {}, cleared: {}", i, e))?;
                }
            }
            ctx.steps(n as u64);
            // and it still takes a large batch
            apply(&mut c, Op::Bulk(8195, pat));
            ctx.outcome(&(n, c.key()));
            c.check().map_err(|e| format!("after {} lives: {}", n, e))
        }));
    }
}

fn bitmap_scenarios(tier: Tier, out: &mut Vec<Scenario>) {
    let depth = tier.of(7, 10);
    let sizes = [1usize, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 129, 8191, 8192, 8193, 16385];
    out.push(Scenario::new("bitmap-capacity", move |ctx| {
        let cap = ctx.choose(70);
        let mut b = if cap == 69 { Bitmap::new() } else { Bitmap::with_capacity(cap) };
        let mut m: Vec<bool> = vec![];
        let shape = ctx.choose(sizes.len() * 4);
        let (s, p) = (sizes[shape / 4], (shape % 4) as u8);
        ctx.step(|| format!("capacity {} append {} bits pattern {}", cap, s, p));
        for i in 0..s {
            b.append(pattern_valid(p, i));
            m.push(pattern_valid(p, i));
        }
        bitmap_check(&b, &m)?;
        if ctx.choose(2) == 1 {
            b.clear();
            m.clear();
            bitmap_check(&b, &m)?;
            let p2 = ctx.choose(4) as u8;
            ctx.step(|| format!("clear, refill pattern {}", p2));
            for i in 0..s + 9 {
                b.append(pattern_valid(p2, i));
                m.push(pattern_valid(p2, i));
            }
            bitmap_check(&b, &m)?;
        }
        ctx.state(&(cap, shape, &m));
        ctx.outcome(&m);
        Ok(())
    }));
    out.push(Scenario::new("bitmap-small", move |ctx| {
        let cap = ctx.pick(&[8usize, 0, 1, 16]);
        let mut b = Bitmap::with_capacity(cap);
        let mut m: Vec<bool> = vec![];
        for _ in 0..depth {
            match ctx.choose(4) {
                0 => {
                    ctx.step(|| "append true".into());
                    b.append(true);
                    m.push(true)
                }
                1 => {
                    ctx.step(|| "append false".into());
                    b.append(false);
                    m.push(false)
                }
                2 => {
                    ctx.step(|| "clear".into());
                    b.clear();
                    m.clear()
                }
                _ => {
                    ctx.step(|| "append 7 alternating".into());
                    for i in 0..7 {
                        b.append(i % 2 == 0);
                        m.push(i % 2 == 0);
                    }
                }
            }
            bitmap_check(&b, &m)?;
            ctx.state(&(cap, &m));
        }
        ctx.outcome(&m);
        Ok(())
    }));
}

// ---------------------------------------------------------------- C02

/// Buffers that support copying spans.
pub trait Span: Col {
    fn append_from(&mut self, src: &Self, start: usize, end: usize, vpos: usize) -> usize;
    fn items(&self) -> usize;
    fn validity(&self) -> &[bool];
    /// extend the model of self by rows [vpos, upto) of src whose first value is number `start`
    fn model_extend(&mut self, src: &Self, start: usize, vpos: usize, upto: usize);
}

impl<T: Prim> Span for PrimCol<T> {
    fn append_from(&mut self, src: &Self, start: usize, end: usize, vpos: usize) -> usize {
        self.buf.append_from(&src.buf, start, end, vpos)
    }
    fn items(&self) -> usize {
        self.vals.len()
    }
    fn validity(&self) -> &[bool] {
        &self.valid
    }
    fn model_extend(&mut self, src: &Self, start: usize, vpos: usize, upto: usize) {
        let mut k = start;
        for i in vpos..upto {
            self.valid.push(src.valid[i]);
            if src.valid[i] {
                self.vals.push(src.vals[k]);
                k += 1;
            }
        }
    }
}

impl Span for BinCol {
    fn append_from(&mut self, src: &Self, start: usize, end: usize, vpos: usize) -> usize {
        self.buf.append_from(&src.buf, start, end, vpos)
    }
    fn items(&self) -> usize {
        self.vals.len()
    }
    fn validity(&self) -> &[bool] {
        &self.valid
    }
    fn model_extend(&mut self, src: &Self, start: usize, vpos: usize, upto: usize) {
        let mut k = start;
        for i in vpos..upto {
            self.valid.push(src.valid[i]);
            if src.valid[i] {
                self.vals.push(src.vals[k].clone());
                k += 1;
            }
        }
    }
}

/// Copies all of `src` into `dst` in consecutive spans picked by `span`, checking every step.
fn copy_all<C: Span>(
    ctx: &mut Ctx,
    dst: &mut C,
    src: &C,
    nullable: bool,
    empties: bool,
    mut span: impl FnMut(&mut Ctx, usize) -> usize,
) -> Result<(), String> {
    let (mut start, mut vpos) = (0, 0);
    let n = src.items();
    loop {
        if empties {
            // an empty span copies nothing and stays where it is
            let ret = dst.append_from(src, start, start, vpos);
            ctx.step(|| format!("append_from items {}..{} at row {} -> {}", start, start, vpos, ret));
            if nullable {
                eq("row position returned by an empty span", ret, vpos)?;
            }
            dst.check().map_err(|e| format!("after an empty span: {}", e))?;
        }
        if start >= n {
            break;
        }
        let len = span(ctx, n - start);
        let end = start + len;
        let ret = dst.append_from(src, start, end, vpos);
        // rows covered: everything up to and including the last copied value
        let upto = {
            let (mut seen, mut i) = (0, vpos);
            while seen < len {
                seen += src.validity()[i] as usize;
                i += 1;
            }
            i
        };
        ctx.step(|| format!("append_from items {}..{} at row {} -> {}", start, end, vpos, ret));
        if nullable {
            eq("row position returned by append_from", ret, upto)?;
        }
        dst.model_extend(src, start, vpos, upto);
        dst.check()
            .map_err(|e| format!("destination after span {}..{}: {}", start, end, e))?;
        src.check().map_err(|e| format!("source after span: {}", e))?;
        ctx.state(&(dst.key(), src.key(), vpos));
        start = end;
        vpos = upto;
    }
    Ok(())
}

fn span_scenarios<C: Span + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    // every source of up to n rows, every consecutive partition into spans, several
    // destination prefixes (alignment), destination possibly reused after clear()
    let n = tier.of(7, 9);
    for nullable in [true, false] {
        out.push(Scenario::new(
            format!("{}-nullable={}-spans", C::NAME, nullable),
            move |ctx| {
                let mut src = C::new(nullable);
                let rows = ctx.choose(n + 1);
                for i in 0..rows {
                    if nullable && ctx.choose(2) == 1 {
                        src.null();
                    } else {
                        src.push(i as u32 + 1);
                    }
                }
                let mut dst = C::new(nullable);
                let pre = ctx.choose(10);
                if ctx.choose(2) == 1 {
                    apply(&mut dst, Op::Bulk(13, 0));
                    dst.clear();
                }
                apply(&mut dst, Op::Bulk(pre, if nullable { 2 } else { 0 }));
                ctx.step(|| format!("source of {} rows, destination of {} rows", rows, pre));
                copy_all(ctx, &mut dst, &src, nullable, pre % 2 == 1, |ctx, left| 1 + ctx.choose(left))?;
                // and the destination is still usable
                apply(&mut dst, Op::Bulk(9, if nullable { 3 } else { 0 }));
                dst.check().map_err(|e| format!("append after spans: {}", e))?;
                ctx.outcome(&dst.key());
                Ok(())
            },
        ));
        // runs of nulls, equal values and different values around word boundaries
        let lens: &'static [usize] = tier.of(&RUN_LENS, &MORE_RUN_LENS);
        out.push(Scenario::new(format!("{}-nullable={}-span-runs", C::NAME, nullable), move |ctx| {
            let mut src = C::new(nullable);
            let runs = pick_runs(ctx, 3, 2 + nullable as usize, lens);
            push_runs(&mut src, &runs);
            let mut dst = C::new(nullable);
            let pre = ctx.pick(&[0usize, 1, 8, 63]);
            // nothing of an earlier life shows through
            apply(&mut dst, Op::Bulk(1500, 0));
            dst.clear();
            apply(&mut dst, Op::Bulk(pre, if nullable { 3 } else { 0 }));
            let mode = ctx.choose(3);
            ctx.step(|| format!("source runs {:?}, destination of {} rows, mode {}", runs, pre, mode));
            copy_all(ctx, &mut dst, &src, nullable, false, |_, left| match mode {
                0 => left,
                1 => (left + 1) / 2,
                _ => left.min(64),
            })?;
            ctx.outcome(&dst.key());
            Ok(())
        }));
        // large runs: bitmap growth, byte and word boundaries
        let sizes: &[usize] = tier.of(
            &[0, 1, 8, 8192, 8193],
            &[0, 1, 7, 8, 9, 1000, 8184, 8191, 8192, 8193, 16384, 16385],
        );
        out.push(Scenario::new(
            format!("{}-nullable={}-spans-bulk", C::NAME, nullable),
            move |ctx| {
                let mut src = C::new(nullable);
                let pats: &[u8] = if nullable { &[0, 1, 2, 4] } else { &[0] };
                for _ in 0..2 {
                    let (s, p) = (ctx.pick(sizes), ctx.pick(pats));
                    ctx.step(|| format!("source: bulk {} pattern {}", s, p));
                    apply(&mut src, Op::Bulk(s, p));
                }
                src.push(1);
                let mut dst = C::new(nullable);
                let (s, p) = (ctx.pick(sizes), ctx.pick(pats));
                if p == 1 {
                    apply(&mut dst, Op::Bulk(20_000, 0));
                    dst.clear();
                }
                ctx.step(|| format!("destination: bulk {} pattern {}", s, p));
                apply(&mut dst, Op::Bulk(s, p));
                let mode = ctx.choose(4);
                copy_all(ctx, &mut dst, &src, nullable, mode % 2 == 1, |_, left| match mode {
                    0 => left,
                    1 => (left + 1) / 2,
                    2 => left.min(8192),
                    _ => left.min(777),
                })?;
                ctx.outcome(&dst.key());
                Ok(())
            },
        ));
    }
    // two sources into one destination: rows of both, in order
    let n2 = tier.of(4, 5);
    out.push(Scenario::new(format!("{}-two-sources", C::NAME), move |ctx| {
        let mut dst = C::new(true);
        for s in 0..2 {
            let mut src = C::new(true);
            let rows = ctx.choose(n2 + 1);
            for i in 0..rows {
                if ctx.choose(2) == 1 {
                    src.null();
                } else {
                    src.push((10 * s + i) as u32 + 1);
                }
            }
            ctx.step(|| format!("source {} of {} rows", s, rows));
            copy_all(ctx, &mut dst, &src, true, rows % 2 == 1, |ctx, left| 1 + ctx.choose(left))?;
            // interleave direct appends with copies
            match ctx.choose(3) {
                0 => {}
                1 => dst.null(),
                _ => dst.push(6),
            }
            dst.check()?;
        }
        ctx.outcome(&dst.key());
        Ok(())
    }));
}

/// Spans beyond 16-bit counts.
fn huge_spans<C: Span + 'static>(out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        out.push(Scenario::new(format!("{}-nullable={}-spans-huge", C::NAME, nullable), move |ctx| {
            let mut src = C::new(nullable);
            let pats: &[u8] = if nullable { &[0, 2, 4] } else { &[0] };
            let (s, p) = (ctx.pick(&[65_535usize, 65_537, 150_000, 1_100_001]), ctx.pick(pats));
            apply(&mut src, Op::Bulk(s, p));
            src.push(1);
            let mut dst = C::new(nullable);
            let dsizes: &[usize] = if s > 1_000_000 { &[3] } else { &[0, 3, 65_536] };
            let (ds, dp) = (ctx.pick(dsizes), ctx.pick(pats));
            apply(&mut dst, Op::Bulk(ds, dp));
            ctx.step(|| format!("source {} rows pattern {}, destination {} rows pattern {}", s, p, ds, dp));
            let whole = ctx.choose(2) == 0;
            copy_all(ctx, &mut dst, &src, nullable, false, |_, left| if whole { left } else { left.min(65_536) })?;
            ctx.state(&(C::NAME, nullable, s, p, ds, dp, whole));
            ctx.outcome(&dst.key());
            Ok(())
        }));
    }
}

/// Very many short spans, of one source or of very many, into one destination.
fn many_spans<C: Span + 'static>(tier: Tier, out: &mut Vec<Scenario>) {
    for nullable in [true, false] {
        out.push(Scenario::new(format!("{}-nullable={}-many-spans", C::NAME, nullable), move |ctx| {
            let n = ctx.pick(tier.of(&[300usize, 70_000], &[300, 5000, 70_000, 300_000]));
            let pat = if nullable { ctx.pick(&[0u8, 2, 3]) } else { 0 };
            let per = 1 + ctx.choose(3);
            let mut dst = C::new(nullable);
            if ctx.choose(2) == 0 {
                ctx.step(|| format!("{} rows, pattern {}, in spans of {} values", n, pat, per));
                let mut src = C::new(nullable);
                apply(&mut src, Op::Bulk(n, pat));
                let (mut start, mut vpos, mut spans) = (0, 0, 0);
                while start < src.items() {
                    let end = (start + per).min(src.items());
                    vpos = dst.append_from(&src, start, end, if nullable { vpos } else { start });
                    start = end;
                    spans += 1;
                }
                let upto = src.validity().iter().rposition(|v| *v).map_or(0, |p| p + 1);
                dst.model_extend(&src, 0, 0, upto);
                ctx.steps(spans);
            } else {
                ctx.step(|| format!("{} sources of {} values, pattern {}", n, per, pat));
                let mut src = C::new(nullable);
                for i in 0..n {
                    src.clear();
                    while src.items() < per {
                        let k = src.rows();
                        if pattern_valid(pat, k + i % 3) {
                            src.push((i * 5 + k) as u32 + 5);
                        } else {
                            src.null();
                        }
                    }
                    let upto = dst.append_from(&src, 0, per, 0);
                    if nullable {
                        eq("position after the span", upto, src.rows())?;
                    }
                    dst.model_extend(&src, 0, 0, src.rows());
                    if n <= 5000 && i % 100 == 0 || i == 65_534 || i == 65_536 {
                        dst.check().map_err(|e| format!("after {} sources: {}", i + 1, e))?;
                    }
                }
                ctx.steps(n as u64);
            }
            ctx.state(&(n, pat, per, dst.rows()));
            ctx.outcome(&dst.key());
            dst.check()
        }));
    }
}

fn bitmap_span(tier: Tier, out: &mut Vec<Scenario>) {
    let n = tier.of(9, 11);
    out.push(Scenario::new("bitmap-append-from", move |ctx| {
        let mut src = Bitmap::new();
        let mut m = vec![];
        for _ in 0..n {
            let b = ctx.choose(2) == 0;
            src.append(b);
            m.push(b);
        }
        let total: usize = m.iter().filter(|b| **b).count();
        let pre = ctx.choose(9);
        let start = ctx.choose(n + 1);
        let avail = m[start..].iter().filter(|b| **b).count();
        let k = ctx.choose(avail + 1);
        let mut dst = Bitmap::new();
        let mut d: Vec<bool> = vec![];
        if ctx.choose(2) == 1 {
            (0..70).for_each(|_| dst.append(true));
            dst.clear();
        }
        for i in 0..pre {
            dst.append(i % 3 == 0);
            d.push(i % 3 == 0);
        }
        let ret = dst.append_from(&src, start, k);
        ctx.step(|| format!("append_from({:?}, {}, {}) onto {} bits -> {}", m, start, k, pre, ret));
        let mut i = start;
        let mut seen = 0;
        while seen < k {
            seen += m[i] as usize;
            d.push(m[i]);
            i += 1;
        }
        eq("returned position", ret, i)?;
        bitmap_check(&dst, &d).map_err(|e| format!("destination: {}", e))?;
        bitmap_check(&src, &m).map_err(|e| format!("source: {}", e))?;
        ctx.state(&(&m, pre, start, k));
        ctx.outcome(&(d, ret, total));
        Ok(())
    }));
}

fn mismatch(out: &mut Vec<Scenario>) {
    // Copying between a nullable and a non-nullable buffer is refused, never silently wrong.
    fn refused<C: Col>(src: (usize, u8), dst: (usize, bool), src_nullable: bool, copy: impl Fn(&mut C, &C)) -> bool {
        let mut s = C::new(src_nullable);
        apply(&mut s, Op::Bulk(src.0, if src_nullable { src.1 } else { 0 }));
        s.push(1);
        let mut d = C::new(!src_nullable);
        apply(&mut d, Op::Bulk(dst.0, 0));
        if dst.1 {
            d.clear();
        }
        no_panic(|| copy(&mut d, &s)).is_err()
    }
    out.push(Scenario::new("nullability-mismatch", |ctx| {
        let src_nullable = ctx.choose(2) == 0;
        let kind = ctx.choose(2);
        let src = (ctx.pick(&[0usize, 1, 7, 8, 9, 64, 1000]), ctx.choose(5) as u8);
        let dst = (ctx.pick(&[0usize, 1, 8, 9, 1000]), ctx.choose(2) == 1);
        ctx.step(|| format!("kind {} src nullable {} rows {:?} destination {:?}", kind, src_nullable, src, dst));
        ctx.state(&(src_nullable, kind, src, dst));
        let r = if kind == 0 {
            refused::<PrimCol<i32>>(src, dst, src_nullable, |d, s| {
                d.buf.append_from(&s.buf, 0, s.buf.len(), 0);
            })
        } else {
            refused::<BinCol>(src, dst, src_nullable, |d, s| {
                d.buf.append_from(&s.buf, 0, s.buf.len(), 0);
            })
        };
        eq("copy between nullable and non-nullable refused", r, true)
    }));
}

/// A binary buffer near the largest size its offsets can express: up to there it holds what it
/// was given, beyond it either does or refuses.
/// In KiB.
pub fn available_memory() -> u64 {
    std::fs::read_to_string("/proc/meminfo")
        .unwrap_or_default()
        .lines()
        .find_map(|l| l.strip_prefix("MemAvailable:")?.trim().split(' ').next()?.parse().ok())
        .unwrap_or(0)
}

fn four_gib(append: bool, tier: Tier, out: &mut Vec<Scenario>) {
    const LIMIT: u64 = 1 << 32;
    let mut sc = Scenario::new(format!("binary-4-gib-by-{}", if append { "append" } else { "append-from" }), move |ctx| {
        if available_memory() < 10 << 20 {
            ctx.note(|| "not enough memory".into());
            return Ok(());
        }
        let nullable = tier.thorough() && ctx.choose(2) == 1;
        // bytes missing to 4 GiB before the last two values, the last but one
        let room = ctx.pick(tier.of(&[9u64], &[9, 2, 1, 0]));
        let step = 1u64 << 29;
        let big = vec![0x5Au8; step as usize];
        let mut src = BinaryBuffer::new(nullable);
        if !append {
            src.append(&big);
        }
        let mut b = BinaryBuffer::new(nullable);
        let mut lens: Vec<u64> = vec![];
        let (mut total, mut refused) = (0u64, false);
        let mut put = |b: &mut BinaryBuffer, v: &[u8]| -> Result<(), String> {
            if refused {
                return Ok(());
            }
            let after = total + v.len() as u64;
            let r = if append {
                no_panic(|| b.append(v))
            } else {
                let mut s = BinaryBuffer::new(nullable);
                let s = if v.len() as u64 == step {
                    &src
                } else {
                    s.append(v);
                    &s
                };
                no_panic(|| {
                    b.append_from(s, 0, 1, 0);
                })
            };
            match r {
                Ok(()) => {
                    total = after;
                    lens.push(v.len() as u64);
                    Ok(())
                }
                Err(_) if after + 1 >= LIMIT => {
                    refused = true;
                    Ok(())
                }
                Err(e) => Err(format!("a value of {} bytes after {}: {}", v.len(), total, e)),
            }
        };
        for _ in 0..7 {
            put(&mut b, &big)?;
        }
        put(&mut b, &big[..(step - room) as usize])?;
        for v in [&b"abcdef"[..], &b"xyz"[..], &b"0123456789"[..]] {
            put(&mut b, v)?;
        }
        ctx.step(|| format!("room {} nullable {}: {} values, {} bytes, refused {}", room, nullable, lens.len(), total, refused));
        ctx.state(&(append, nullable, room));
        ctx.outcome(&(&lens, refused));
        if refused {
            // what a refused append leaves behind is not specified
            return Ok(());
        }
        eq("values", b.len(), lens.len())?;
        eq("bytes", b.data().len() as u64, total)?;
        let mut at = 0u64;
        for (i, l) in lens.iter().enumerate() {
            at += l;
            eq(&format!("length of value {}", i), b.item_len(i) as u64, *l)?;
            eq(&format!("end of value {}", i), b.offsets()[i + 1] as u64, at)?;
        }
        Ok(())
    });
    sc.threads = 1;
    out.push(sc);
}

pub fn check(id: &str, tier: Tier) -> Option<Check> {
    let mut s = vec![];
    match id {
        "C01" => {
            small::<PrimCol<i32>>(tier, &mut s);
            small::<BinCol>(tier, &mut s);
            small::<BoolCol>(tier, &mut s);
            small::<PrimCol<f64>>(tier, &mut s);
            bitmap_scenarios(tier, &mut s);
            bulk::<PrimCol<i32>>(tier, &mut s);
            bulk::<BinCol>(tier, &mut s);
            bulk::<BoolCol>(tier, &mut s);
            special::<PrimCol<i32>>(tier, &mut s);
            special::<PrimCol<i64>>(tier, &mut s);
            special::<PrimCol<u64>>(tier, &mut s);
            special::<PrimCol<f64>>(tier, &mut s);
            special::<BinCol>(tier, &mut s);
            large_values(tier, &mut s);
            many_lives::<PrimCol<i32>>(tier, &mut s);
            many_lives::<PrimCol<i64>>(tier, &mut s);
            many_lives::<PrimCol<u64>>(tier, &mut s);
            many_lives::<PrimCol<f64>>(tier, &mut s);
            many_lives::<BinCol>(tier, &mut s);
            many_lives::<BoolCol>(tier, &mut s);
            every_count::<PrimCol<i32>>(tier, &mut s);
            every_count::<PrimCol<i64>>(tier, &mut s);
            every_count::<PrimCol<u64>>(tier, &mut s);
            every_count::<PrimCol<f64>>(tier, &mut s);
            every_count::<BinCol>(tier, &mut s);
            every_count::<BoolCol>(tier, &mut s);
            every_length(tier, &mut s);
            four_gib(true, tier, &mut s);
            if tier.thorough() {
                small::<PrimCol<i64>>(tier, &mut s);
                small::<PrimCol<u64>>(tier, &mut s);
                bulk::<PrimCol<f64>>(tier, &mut s);
            }
            Some(Check {
                id: "C01",
                level: "model_checking",
                rule: "every sequence of append/append_null/clear/bulk operations up to the stated depth, executed on the real buffer and compared, after every operation, with a reference list of rows through the buffer's whole public interface; a state is the reference list",
                assumptions: vec![
                    "values are drawn from a fixed per-position alphabet (extremes and mixed bit patterns)",
                    "buffers of at most about 1.1 million rows and, one binary buffer, 4 GiB",
                ],
                scenarios: s,
            })
        }
        "C02" => {
            span_scenarios::<PrimCol<i32>>(tier, &mut s);
            span_scenarios::<BinCol>(tier, &mut s);
            bitmap_span(tier, &mut s);
            mismatch(&mut s);
            large_values(tier, &mut s);
            huge_spans::<PrimCol<i32>>(&mut s);
            huge_spans::<BinCol>(&mut s);
            many_spans::<PrimCol<i32>>(tier, &mut s);
            many_spans::<PrimCol<i64>>(tier, &mut s);
            many_spans::<PrimCol<f64>>(tier, &mut s);
            many_spans::<BinCol>(tier, &mut s);
            every_span::<PrimCol<i32>>(tier, &mut s);
            every_span::<PrimCol<i64>>(tier, &mut s);
            every_span::<PrimCol<u64>>(tier, &mut s);
            every_span::<PrimCol<f64>>(tier, &mut s);
            every_span::<BinCol>(tier, &mut s);
            every_length(tier, &mut s);
            four_gib(false, tier, &mut s);
            if tier.thorough() {
                span_scenarios::<PrimCol<f64>>(tier, &mut s);
            }
            Some(Check {
                id: "C02",
                level: "model_checking",
                rule: "every source row pattern up to the bound, every partition of its values into consecutive spans, every destination alignment; after every copy destination and source are compared with reference row lists",
                assumptions: vec!["spans are requested in order with the position the previous copy returned, as the encoders do"],
                scenarios: s,
            })
        }
        _ => None,
    }
}
