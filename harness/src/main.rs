//! Driver: runs write programs against the orc-format crate and records what happened.
//!
//! It executes and projects, it does not judge: every trace line holds the calls made, their
//! outcomes, and the raw bytes the sink received.  The only interpretation is the location and
//! decompression of Zstandard chunks, which TLA+ cannot do (module chunks.rs).
//!
//!   orc-driver run PROGRAMS OUT.ndjson [FIRST]     run the programs from the FIRST-th on

mod chunks;
mod program;
mod sink;

use orc_format::schema::{Field, Schema};
use orc_format::writer::compression::{Compression, NoCompression, SnappyCompression, ZstdCompression};
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::{Config, Writer};
use program::{Conf, Op, Part, Program, Ty};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

const MANY: u64 = 1_000_000_000;
const ORC_EPOCH: i64 = 1420070400; // 2015-01-01T00:00:00Z in Unix seconds

fn schema_of(t: &Ty) -> Schema {
    match t.kind.as_str() {
        "BOOLEAN" => Schema::Boolean,
        "SHORT" => Schema::Short,
        "INT" => Schema::Int,
        "LONG" => Schema::Long,
        "DATE" => Schema::Date,
        "FLOAT" => Schema::Float,
        "DOUBLE" => Schema::Double,
        "TIMESTAMP" => Schema::Timestamp,
        "DECIMAL" => Schema::Decimal(t.p, t.s),
        "STRING" => Schema::String,
        "BINARY" => Schema::Binary,
        "CHAR" => Schema::Char(t.n),
        "VARCHAR" => Schema::VarChar(t.n),
        "STRUCT" => Schema::Struct(
            t.kids.iter().zip(&t.names)
                .map(|(k, n)| Field(String::from_utf8(n.clone()).unwrap(), schema_of(k)))
                .collect(),
        ),
        "LIST" => Schema::List(Box::new(schema_of(&t.kids[0]))),
        "MAP" => Schema::Map(Box::new(schema_of(&t.kids[0])), Box::new(schema_of(&t.kids[1]))),
        "UNION" => Schema::Union(t.kids.iter().map(schema_of).collect()),
        k => panic!("unknown kind {}", k),
    }
}

fn compression_of(p: &Program) -> Compression {
    match p.comp.as_str() {
        "NONE" => NoCompression::new().build(),
        "SNAPPY" => {
            let c = SnappyCompression::new();
            if p.block >= 0 { c.with_block_size(p.block as usize).build() } else { c.build() }
        }
        "ZSTD" => {
            let mut c = ZstdCompression::new();
            if p.block >= 0 { c = c.with_block_size(p.block as usize); }
            if p.level != 0 { c = c.with_compression_level(p.level); }
            c.build()
        }
        k => panic!("unknown codec {}", k),
    }
}

/// Pre-order list of (type, path from the root).
fn flatten<'a>(t: &'a Ty, path: Vec<usize>, out: &mut Vec<(&'a Ty, Vec<usize>)>) {
    out.push((t, path.clone()));
    for (i, k) in t.kids.iter().enumerate() {
        let mut p = path.clone();
        p.push(i);
        flatten(k, p, out);
    }
}

fn descend<'a>(d: &'a mut Data, path: &[usize], alt: bool) -> &'a mut Data {
    if path.is_empty() {
        return d;
    }
    let i = path[0];
    let next = match d {
        Data::Struct(s) => if alt { &mut s.children()[i] } else { s.child(i) },
        Data::Union(u) => if alt { &mut u.children()[i] } else { u.child(i) },
        Data::List(l) => l.child(),
        Data::Map(m) => {
            if alt {
                let (k, v) = m.children();
                if i == 0 { k } else { v }
            } else if i == 0 { m.keys() } else { m.values() }
        }
        _ => panic!("not a container"),
    };
    descend(next, &path[1..], alt)
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn typed_null(d: &mut Data) {
    match d {
        Data::Boolean(_) => d.unwrap_boolean().write_null(),
        Data::Long(_) => d.unwrap_long().write_null(),
        Data::Float(_) => d.unwrap_float().write_null(),
        Data::Double(_) => d.unwrap_double().write_null(),
        Data::Timestamp(_) => d.unwrap_timestamp().write_null(),
        Data::Decimal(_) => d.unwrap_decimal().write_null(),
        Data::String(_) => d.unwrap_string().write_null(),
        Data::Binary(_) => d.unwrap_binary().write_null(),
        Data::Struct(_) => d.unwrap_struct().write_null(),
        Data::List(_) => d.unwrap_list().write_null(),
        Data::Map(_) => d.unwrap_map().write_null(),
        Data::Union(_) => d.unwrap_union().write_null(),
    }
}

/// Write one cell. `alt` selects the alternative entry points.
fn put(d: &mut Data, kind: &str, tok: &str, alt: bool) {
    if tok == "~" {
        if alt { d.write_null() } else { typed_null(d) }
        return;
    }
    match kind {
        "BOOLEAN" => d.unwrap_boolean().write(tok == "1"),
        "SHORT" | "INT" | "LONG" | "DATE" => d.unwrap_long().write(tok.parse().unwrap()),
        "FLOAT" => d.unwrap_float().write(f32::from_bits(u32::from_str_radix(tok, 16).unwrap())),
        "DOUBLE" => d.unwrap_double().write(f64::from_bits(u64::from_str_radix(tok, 16).unwrap())),
        "TIMESTAMP" => {
            let (s, n) = tok.split_once(':').unwrap();
            let (s, n): (i64, u32) = (s.parse().unwrap(), n.parse().unwrap());
            if alt {
                d.unwrap_timestamp().write_nanos_epoch(s + ORC_EPOCH, n)
            } else {
                d.unwrap_timestamp().write_nanos(s, n)
            }
        }
        "DECIMAL" => {
            let v: i128 = tok.parse().unwrap();
            if !alt && v >= i64::MIN as i128 && v <= i64::MAX as i128 {
                d.unwrap_decimal().write_i64(v as i64)
            } else {
                d.unwrap_decimal().write_i128(v)
            }
        }
        "STRING" | "CHAR" | "VARCHAR" => {
            let b = hex(&tok[1..]);
            d.unwrap_string().write(std::str::from_utf8(&b).unwrap())
        }
        "BINARY" => d.unwrap_binary().write(&hex(&tok[1..])),
        "STRUCT" => d.unwrap_struct().write(),
        "LIST" => d.unwrap_list().write(tok.parse().unwrap()),
        "MAP" => d.unwrap_map().write(tok.parse().unwrap()),
        "UNION" => d.unwrap_union().write(tok.parse().unwrap()),
        k => panic!("unknown kind {}", k),
    }
}

// ---------------------------------------------------------------- JSON output

fn num(v: i128, o: &mut String) {
    let s = if v == 0 { 0 } else if v < 0 { -1 } else { 1 };
    let mut m = v.unsigned_abs();
    write!(o, "[{}", s).unwrap();
    while m > 0 {
        write!(o, ",{}", m & 0x1fffff).unwrap();
        m >>= 21;
    }
    o.push(']');
}

pub fn bytes(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 { o.push(','); }
        write!(o, "{}", x).unwrap();
    }
    o.push(']');
}

fn cell(kind: &str, tok: &str, o: &mut String) {
    if tok == "~" {
        o.push_str("[]");
        return;
    }
    o.push('[');
    match kind {
        "SHORT" | "INT" | "LONG" | "DATE" | "DECIMAL" => num(tok.parse().unwrap(), o),
        "FLOAT" => {
            let x = f32::from_bits(u32::from_str_radix(tok, 16).unwrap());
            o.push('[');
            bytes(&x.to_bits().to_le_bytes(), o);
            o.push(',');
            bytes(&(x as f64).to_bits().to_le_bytes(), o);
            o.push(']');
        }
        "DOUBLE" => {
            let x = u64::from_str_radix(tok, 16).unwrap().to_le_bytes();
            o.push('[');
            bytes(&x, o);
            o.push(',');
            bytes(&x, o);
            o.push(']');
        }
        "TIMESTAMP" => {
            let (s, n) = tok.split_once(':').unwrap();
            o.push('[');
            num(s.parse().unwrap(), o);
            write!(o, ",{}]", n).unwrap();
        }
        "STRING" | "CHAR" | "VARCHAR" | "BINARY" => bytes(&hex(&tok[1..]), o),
        "STRUCT" => o.push('1'),
        // more than TLC can count is more than any run holds
        _ => o.push_str(&tok.parse::<u64>().unwrap().min(MANY).to_string()),
    }
    o.push(']');
}

fn type_json(t: &Ty, o: &mut String) {
    write!(o, "{{\"k\":\"{}\",\"p\":{},\"s\":{},\"n\":", t.kind, t.p, t.s).unwrap();
    num(t.n as i128, o);
    o.push_str(",\"names\":[");
    for (i, n) in t.names.iter().enumerate() {
        if i > 0 { o.push(','); }
        bytes(n, o);
    }
    o.push_str("],\"kids\":[");
    for (i, k) in t.kids.iter().enumerate() {
        if i > 0 { o.push(','); }
        type_json(k, o);
    }
    o.push_str("]}");
}

struct Events {
    s: String,
    n: usize,
}

impl Events {
    fn put(&mut self, col: usize, kind: &str, toks: &[String], r: &str) {
        if toks.is_empty() { return; }
        if self.n > 0 { self.s.push(','); }
        self.n += 1;
        write!(self.s, "{{\"e\":\"put\",\"c\":{},\"r\":\"{}\",\"vs\":[", col, r).unwrap();
        for (i, t) in toks.iter().enumerate() {
            if i > 0 { self.s.push(','); }
            cell(kind, t, &mut self.s);
        }
        self.s.push_str("]}");
    }

    fn call(&mut self, e: &str, n: u64, r: &str, out: usize, io: &[(i64, i64)]) {
        if self.n > 0 { self.s.push(','); }
        self.n += 1;
        write!(self.s, "{{\"e\":\"{}\",\"n\":{},\"r\":\"{}\",\"out\":{},\"io\":[", e, n, r, out).unwrap();
        for (i, (a, b)) in io.iter().enumerate() {
            if i > 0 { self.s.push(','); }
            write!(self.s, "[{},{}]", a, b).unwrap();
        }
        self.s.push_str("]}");
    }
}

/// Another writer of the same process, at work in between the calls of the program under
/// observation.  `twin` has the schema and configuration of that program but its own values.
struct Shadow<'a> {
    kind: String,
    p: &'a Program,
    cols: Vec<(&'a Ty, Vec<usize>)>,
    w: Option<Writer<Vec<u8>>>,
    n: i64,
}

fn shadow_value(kind: &str, n: i64) -> String {
    match kind {
        "BOOLEAN" => (n % 2).to_string(),
        "FLOAT" => format!("{:08x}", (n as f32 * 1.5).to_bits()),
        "DOUBLE" => format!("{:016x}", (n as f64 * 2.5).to_bits()),
        "TIMESTAMP" => format!("{}:{}", n * 7919 - 50_000, n % 1_000_000_000),
        "STRING" | "CHAR" | "VARCHAR" | "BINARY" => format!("x{}", "7a79".repeat((n % 9) as usize)),
        _ => (n * 1_000_003).to_string(),
    }
}

impl<'a> Shadow<'a> {
    fn new(kind: &str, p: &'a Program) -> Shadow<'a> {
        let mut cols = Vec::new();
        flatten(&p.ty, vec![], &mut cols);
        let mut s = Shadow { kind: kind.into(), p, cols, w: None, n: 0 };
        s.open();
        s
    }

    fn open(&mut self) {
        let schema = Schema::Struct(vec![
            Field("p".into(), Schema::Long),
            Field("q".into(), Schema::String),
            Field("r".into(), Schema::List(Box::new(Schema::Boolean))),
        ]);
        let cfg = Config::new().with_row_index_stride(3).with_stripe_size(40);
        let zstd = |l: i32| ZstdCompression::new().with_block_size(1 << (7 + self.n % 5)).with_compression_level(l).build();
        self.w = match self.kind.as_str() {
            "zstd" | "thread" => Writer::new(Vec::new(), &schema, cfg.with_compression(zstd([19, 1, 5, 12][(self.n / 7 % 4) as usize]))),
            "none" => Writer::new(Vec::new(), &schema, cfg.with_compression(NoCompression::new().build())),
            "twin" => Writer::new(Vec::new(), &schema_of(&self.p.ty), config_of(self.p)),
            _ => Writer::new(Vec::new(), &schema, cfg.with_compression(SnappyCompression::new().with_block_size(17).build())),
        }.ok();
    }

    /// One more row.
    fn step(&mut self) {
        self.n += 1;
        let n = self.n;
        if let Some(w) = &mut self.w {
            if self.kind == "twin" {
                let mut has = vec![1i64; self.cols.len()];
                for (c, (t, path)) in self.cols.iter().enumerate() {
                    let kids: Vec<usize> = (0..self.cols.len())
                        .filter(|k| self.cols[*k].1.len() == path.len() + 1 && self.cols[*k].1.starts_with(path)).collect();
                    for i in 0..has[c] {
                        let d = descend(w.data(), path, false);
                        if (n + i + c as i64) % 5 == 0 {
                            typed_null(d);
                            for k in &kids { if i == 0 { has[*k] = 0 } }
                            continue;
                        }
                        let v = match t.kind.as_str() {
                            "STRUCT" => 1,
                            "LIST" | "MAP" => (n + i) % 3,
                            "UNION" => (n + i) % kids.len().max(1) as i64,
                            _ => 0,
                        };
                        for (o, k) in kids.iter().enumerate() {
                            if i == 0 { has[*k] = 0 }
                            has[*k] += if t.kind == "UNION" { (v == o as i64) as i64 } else { v };
                        }
                        if kids.is_empty() && t.kind != "STRUCT" && t.kind != "UNION" {
                            put(d, &t.kind, &shadow_value(&t.kind, n + i), false);
                        } else {
                            put(d, &t.kind, &v.to_string(), false);
                        }
                    }
                    if has[c] == 0 { for k in &kids { has[*k] = 0 } }
                }
            } else {
                let root = w.data().unwrap_struct();
                root.child(0).unwrap_long().write(n * 1_000_003);
                if n % 3 == 0 {
                    root.child(1).unwrap_string().write_null();
                } else {
                    root.child(1).unwrap_string().write(&format!("shadow {}", n));
                }
                let l = root.child(2).unwrap_list();
                for i in 0..n % 4 {
                    l.child().unwrap_boolean().write(i % 2 == 0);
                }
                l.write((n % 4) as u64);
                root.write();
            }
            let _ = catch_unwind(AssertUnwindSafe(|| w.write_batch(1)));
        }
        // one shadow is never finished, only dropped
        if n % 7 == 0 {
            if let Some(w) = self.w.take() {
                if self.kind != "drop" {
                    let _ = catch_unwind(AssertUnwindSafe(|| w.finish().map(|_| ())));
                }
            }
            self.open();
        }
    }
}

fn config_of(p: &Program) -> Config {
    let mut cfg = Config::new();
    if p.own {
        for c in &p.conf {
            cfg = match c {
                Conf::Stride(n) => cfg.with_row_index_stride(*n),
                Conf::Stripe(n) => cfg.with_stripe_size(*n),
                Conf::Comp(codec, parts) => cfg.with_compression(match codec.as_str() {
                    "NONE" => NoCompression::new().build(),
                    "SNAPPY" => parts.iter().fold(SnappyCompression::new(), |c, x| match x {
                        Part::Block(n) => c.with_block_size(*n),
                        Part::Level(_) => panic!("no level"),
                    }).build(),
                    _ => parts.iter().fold(ZstdCompression::new(), |c, x| match x {
                        Part::Block(n) => c.with_block_size(*n),
                        Part::Level(n) => c.with_compression_level(*n),
                    }).build(),
                }),
            };
        }
        return cfg;
    }
    if p.stride >= 0 { cfg = cfg.with_row_index_stride(p.stride as u32); }
    if p.stripe >= 0 { cfg = cfg.with_stripe_size(p.stripe as usize); }
    // NONE with block -1 keeps the default compression untouched
    if p.comp != "NONE" || p.block >= 0 { cfg = cfg.with_compression(compression_of(p)); }
    cfg
}

fn run(p: &Program, index: &HashMap<String, usize>) -> String {
    if !p.shadow.iter().any(|k| k == "thread") {
        return run_here(p, index);
    }
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut other = Shadow::new("thread", p);
            while !stop.load(Ordering::SeqCst) { other.step(); }
        });
        let line = run_here(p, index);
        stop.store(true, Ordering::SeqCst);
        line
    })
}

fn run_here(p: &Program, index: &HashMap<String, usize>) -> String {
    let mut cols = Vec::new();
    flatten(&p.ty, vec![], &mut cols);
    let mut ev = Events { s: String::new(), n: 0 };
    let state = sink::State::new(&p.sink);
    let mut shadows: Vec<Shadow> = p.shadow.iter().filter(|k| *k != "thread" && *k != "fresh").map(|k| Shadow::new(k, p)).collect();
    let mut fin = false;

    let made = catch_unwind(AssertUnwindSafe(|| {
        Writer::new(state.sink(), &schema_of(&p.ty), config_of(p))
    }));
    let (mut writer, r) = match made {
        Ok(Ok(w)) => (Some(w), "ok"),
        Ok(Err(_)) => (None, "err"),
        Err(_) => (None, "panic"),
    };
    ev.call("new", 0, r, state.len(), &state.take_log());

    for op in &p.ops {
        for s in &mut shadows { s.step(); }
        let w = match &mut writer { Some(w) => w, None => break };
        match op {
            Op::Put { col, toks, alt } => {
                let (t, path) = &cols[*col];
                let mut from = 0;
                while from < toks.len() {
                    let mut at = from;
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        let d = descend(w.data(), path, *alt);
                        while at < toks.len() {
                            put(d, &t.kind, &toks[at], *alt);
                            at += 1;
                        }
                    }));
                    ev.put(*col, &t.kind, &toks[from..at], "ok");
                    if res.is_err() {
                        ev.put(*col, &t.kind, &toks[at..at + 1], "panic");
                        at += 1;
                    }
                    from = at;
                }
            }
            Op::Batch(n) => {
                let res = catch_unwind(AssertUnwindSafe(|| w.write_batch(*n)));
                let r = match &res { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
                ev.call("batch", (*n).min(MANY), r, state.len(), &state.take_log());
                if res.is_err() { writer = None; }
            }
            Op::Many { .. } | Op::Noise { .. } => panic!("N or R in a run that is not tagged large"),
            Op::Finish => {
                let w = writer.take().unwrap();
                let res = catch_unwind(AssertUnwindSafe(|| w.finish().map(|_| ())));
                let r = match &res { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
                fin = r == "ok";
                ev.call("finish", 0, r, state.len(), &state.take_log());
            }
        }
    }
    drop(writer);

    let file = state.bytes();
    let mut o = String::new();
    write!(o, "{{\"id\":\"{}\",\"ref\":{},\"tag\":\"{}\",\"schema\":", p.id,
        p.reference.as_ref().map_or(0, |r| index.get(r).map_or(0, |i| i + 1)), p.tag).unwrap();
    type_json(&p.ty, &mut o);
    let mut stride = String::new();
    num(if p.stride < 0 { 10000 } else { p.stride as i128 }, &mut stride);
    o.push_str(",\"conf\":[");
    for (i, c) in p.conf.iter().enumerate() {
        if i > 0 { o.push(','); }
        match c {
            Conf::Stride(n) => write!(o, "[\"stride\",{}]", (*n as u64).min(MANY)).unwrap(),
            Conf::Stripe(n) => write!(o, "[\"stripe\",{}]", (*n as u64).min(MANY)).unwrap(),
            Conf::Comp(codec, parts) => {
                write!(o, "[\"comp\",\"{}\",[", codec).unwrap();
                for (j, x) in parts.iter().enumerate() {
                    if j > 0 { o.push(','); }
                    match x {
                        Part::Block(n) => write!(o, "[\"block\",{}]", (*n as u64).min(MANY)).unwrap(),
                        Part::Level(n) => write!(o, "[\"level\",{}]", n).unwrap(),
                    }
                }
                o.push_str("]]");
            }
        }
    }
    o.push(']');
    write!(o, ",\"comp\":\"{}\",\"block\":{},\"stripe\":{},\"stride\":{},\"strideN\":{},\"crash\":\"\",\"fin\":{},\"flushed\":{},\"ev\":[{}],\"file\":",
        p.comp, p.block, p.stripe.min(MANY as i64), p.stride.min(MANY as i64), stride, fin, state.flushed_at_end(), ev.s).unwrap();
    bytes(&file, &mut o);
    o.push_str(",\"dec\":[");
    let mut first = true;
    if fin {
        for (off, data) in chunks::zstd_chunks(&file) {
            if !first { o.push(','); }
            first = false;
            write!(o, "[{},", off).unwrap();
            bytes(&data, &mut o);
            o.push(']');
        }
    }
    o.push_str("]}");
    o
}

/// A sink that keeps the first bytes, the last ones and what arrived in small buffers.
#[derive(Default)]
struct Ends {
    small: Vec<(u64, Vec<u8>)>,
    kept: usize,
    head: Vec<u8>,
    tail: Vec<u8>,
    len: u64,
    flushed: bool,
}
const TAIL: usize = 1 << 19;

#[derive(Clone, Default)]
struct EndsSink(std::rc::Rc<std::cell::RefCell<Ends>>);

impl std::io::Write for EndsSink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let k = (3 - s.head.len()).min(buf.len());
        s.head.extend_from_slice(&buf[..k]);
        s.tail.extend_from_slice(&buf[buf.len().saturating_sub(TAIL)..]);
        if s.tail.len() > 8 * TAIL {
            let cut = s.tail.len() - TAIL;
            s.tail.drain(..cut);
        }
        if buf.len() <= 1 << 20 && s.kept < 1 << 28 {
            let at = s.len;
            s.small.push((at, buf.to_vec()));
            s.kept += buf.len();
        }
        s.len += buf.len() as u64;
        s.flushed = false;
        Ok(buf.len())
    }

    fn flush(&mut self) -> std::io::Result<()> {
        self.0.borrow_mut().flushed = true;
        Ok(())
    }
}

impl Ends {
    /// The bytes from `at` on, if they arrived in small buffers.
    fn range(&self, at: u64, len: u64) -> Option<Vec<u8>> {
        let mut out = vec![];
        let mut i = self.small.partition_point(|(o, b)| o + b.len() as u64 <= at);
        while (out.len() as u64) < len {
            let (o, b) = self.small.get(i)?;
            let from = (at + out.len() as u64).checked_sub(*o)? as usize;
            if from > b.len() { return None; }
            let take = (b.len() - from).min(len as usize - out.len());
            out.extend_from_slice(&b[from..from + take]);
            i += 1;
        }
        Some(out)
    }
}

/// Deterministic noise.
struct Lcg(u64);
impl Lcg {
    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
    fn wide(&mut self) -> i64 { ((self.next(1 << 31) << 32) | (self.next(1 << 31) << 1)) as i64 >> self.next(63) }
}

/// Write one arbitrary non-null value; returns (bytes it takes in a stream of raw values, its number).
fn noise(d: &mut Data, kind: &str, variants: u64, g: &mut Lcg) -> (u64, u64) {
    match kind {
        "BOOLEAN" => d.unwrap_boolean().write(g.next(2) == 1),
        "SHORT" => d.unwrap_long().write(g.wide() as i16 as i64),
        "INT" | "DATE" => d.unwrap_long().write(g.wide() as i32 as i64),
        "LONG" => d.unwrap_long().write(g.wide()),
        "FLOAT" => { d.unwrap_float().write(g.next(1 << 20) as f32 / 8.0); return (4, 0) }
        "DOUBLE" => { d.unwrap_double().write(g.wide() as f64 / 16.0); return (8, 0) }
        "TIMESTAMP" => d.unwrap_timestamp().write_nanos(g.wide() >> 24, g.next(1_000_000_000) as u32),
        "DECIMAL" => d.unwrap_decimal().write_i64(g.wide()),
        "STRING" | "CHAR" | "VARCHAR" => {
            let s: String = (0..g.next(6)).map(|_| (b'a' + g.next(26) as u8) as char).collect();
            d.unwrap_string().write(&s);
            return (s.len() as u64, 0);
        }
        "BINARY" => {
            let s: Vec<u8> = (0..g.next(6)).map(|_| g.next(256) as u8).collect();
            d.unwrap_binary().write(&s);
            return (s.len() as u64, 0);
        }
        "STRUCT" => { d.unwrap_struct().write(); return (0, 1) }
        "LIST" => { let n = g.next(3); d.unwrap_list().write(n); return (0, n) }
        "MAP" => { let n = g.next(3); d.unwrap_map().write(n); return (0, n) }
        "UNION" => { let n = g.next(variants); d.unwrap_union().write(n as usize); return (0, n) }
        k => panic!("kind {}", k),
    }
    (0, 0)
}

fn large_call(ev: &mut String, e: &str, n: u64, r: &str, s: &EndsSink, more: &str) {
    if !ev.is_empty() { ev.push(','); }
    write!(ev, "{{\"e\":\"{}\",\"r\":\"{}\"{},\"n\":", e, r, more).unwrap();
    num(n as i128, ev);
    ev.push_str(",\"out\":");
    num(s.0.borrow().len as i128, ev);
    ev.push('}');
}

/// Runs whose cells are recorded by number only (spec/Large.tla).
fn run_large(p: &Program) -> String {
    let mut cols = Vec::new();
    flatten(&p.ty, vec![], &mut cols);
    let sink = EndsSink::default();
    let mut ev = String::new();
    let result = |r: &std::thread::Result<std::io::Result<()>>| match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
    let mut writer = None;
    let res = catch_unwind(AssertUnwindSafe(|| Writer::new(sink.clone(), &schema_of(&p.ty), config_of(p)).map(|w| writer = Some(w))));
    large_call(&mut ev, "new", 0, result(&res), &sink, "");
    let mut fin = false;
    for op in &p.ops {
        let w = match &mut writer { Some(w) => w, None => break };
        let put = |ev: &mut String, col: usize, all: u64, full: u64, bytes: u64, kids: &[(usize, u64)], r: &str| {
            let mut more = format!(",\"c\":{},\"bytes\":", col);
            num(bytes as i128, &mut more);
            more.push_str(",\"full\":");
            num(full as i128, &mut more);
            more.push_str(",\"kids\":[");
            for (i, (k, n)) in kids.iter().enumerate() {
                write!(more, "{}[{},", if i > 0 { "," } else { "" }, k).unwrap();
                num(*n as i128, &mut more);
                more.push(']');
            }
            more.push(']');
            large_call(ev, "put", all, r, &sink, &more);
        };
        let kids_of = |c: usize| -> Vec<usize> {
            (0..cols.len()).filter(|k| cols[*k].1.len() == cols[c].1.len() + 1 && cols[*k].1.starts_with(&cols[c].1)).collect()
        };
        match op {
            Op::Many { col, n, width } => {
                let (t, path) = &cols[*col];
                let buf = vec![7u8; *width];
                let res: std::thread::Result<std::io::Result<()>> = catch_unwind(AssertUnwindSafe(|| {
                    match descend(w.data(), path, false) {
                        Data::Struct(d) => for _ in 0..*n { d.write() },
                        Data::Double(d) => for i in 0..*n { d.write(i as f64) },
                        Data::Float(d) => for i in 0..*n { d.write(i as f32) },
                        Data::Binary(d) => for _ in 0..*n { d.write(&buf) },
                        Data::Decimal(d) => for _ in 0..*n { d.write_i64(1) },
                        _ => panic!("column of a large run"),
                    }
                    Ok(())
                }));
                let bytes = match t.kind.as_str() { "STRUCT" => 0, _ => *n * *width as u64 };
                let kids: Vec<(usize, u64)> = kids_of(*col).into_iter().map(|k| (k, *n)).collect();
                put(&mut ev, *col, *n, *n, bytes, &kids, result(&res));
            }
            Op::Noise { rows, seed } => {
                let mut g = Lcg(*seed);
                let mut need = vec![0u64; cols.len()];
                need[0] = *rows;
                for c in 0..cols.len() {
                    let (t, path) = &cols[c];
                    let kids = kids_of(c);
                    let mut kn = vec![0u64; kids.len()];
                    let (mut full, mut bytes) = (0, 0);
                    let rare = [2, 3, 20, 1000][g.next(if seed % 2 == 0 { 2 } else { 4 }) as usize];
                    let res: std::thread::Result<std::io::Result<()>> = catch_unwind(AssertUnwindSafe(|| {
                        let d = descend(w.data(), path, false);
                        for _ in 0..need[c] {
                            if g.next(rare) == 0 { typed_null(d); continue; }
                            let (b, v) = noise(d, &t.kind, kids.len().max(1) as u64, &mut g);
                            full += 1;
                            bytes += b;
                            if t.kind == "UNION" { kn[v as usize] += 1 } else { kn.iter_mut().for_each(|k| *k += v) }
                        }
                        Ok(())
                    }));
                    let ks: Vec<(usize, u64)> = kids.iter().cloned().zip(kn.iter().cloned()).collect();
                    for (k, n) in &ks { need[*k] = *n; }
                    put(&mut ev, c, need[c], full, bytes, &ks, result(&res));
                }
            }
            Op::Batch(n) => {
                let res = catch_unwind(AssertUnwindSafe(|| w.write_batch(*n)));
                large_call(&mut ev, "batch", *n, result(&res), &sink, "");
                if res.is_err() { writer = None; }
            }
            Op::Finish => {
                let w = writer.take().unwrap();
                let res = catch_unwind(AssertUnwindSafe(|| w.finish().map(|_| ())));
                fin = result(&res) == "ok";
                large_call(&mut ev, "finish", 0, result(&res), &sink, "");
            }
            Op::Put { .. } => panic!("W in a run that is tagged large"),
        }
    }
    drop(writer);
    let s = sink.0.borrow();
    let mut o = String::new();
    write!(o, "{{\"id\":\"{}\",\"schema\":", p.id).unwrap();
    type_json(&p.ty, &mut o);
    write!(o, ",\"comp\":\"{}\",\"fin\":{},\"flushed\":{},\"stripe\":", p.comp, fin, s.flushed).unwrap();
    num(p.stripe as i128, &mut o);
    o.push_str(",\"len\":");
    num(s.len as i128, &mut o);
    write!(o, ",\"noise\":{},\"pieces\":[", p.ops.iter().any(|o| matches!(o, Op::Noise { .. }))).unwrap();
    let mut first = true;
    for (at, len) in chunks::stripe_footers(&s.tail, s.len) {
        if let Some(b) = s.range(at, len) {
            if !first { o.push(','); }
            first = false;
            o.push('[');
            num(at as i128, &mut o);
            o.push(',');
            bytes(&b, &mut o);
            o.push(']');
        }
    }
    o.push(']');
    write!(o, ",\"dec\":[],\"ev\":[{}],\"head\":", ev).unwrap();
    bytes(&s.head, &mut o);
    o.push_str(",\"tail\":");
    bytes(&s.tail[s.tail.len().saturating_sub(TAIL.min((1 << 14) + 150 * cols.len()))..], &mut o);
    o.push('}');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 || (args[1] != "run" && args[1] != "one") {
        eprintln!("usage: orc-driver run PROGRAMS OUT [FIRST] | one PROGRAMS ID");
        std::process::exit(2);
    }
    let text = std::fs::read_to_string(&args[2]).expect("programs");
    let progs = catch_unwind(|| program::parse(&text)).unwrap_or_else(|_| std::process::exit(2));
    let mut index = HashMap::new();
    for (i, p) in progs.iter().enumerate() {
        index.insert(p.id.clone(), i);
    }
    if std::env::var_os("ORC_DRIVER_LOUD").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    if args[1] == "one" {
        let line = run(&progs[index[&args[3]]], &index);
        std::io::stdout().write_all(line.as_bytes()).expect("write trace");
        return;
    }
    let first: usize = args.get(4).map_or(0, |x| x.parse().unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).expect("output");
    for p in &progs[first..] {
        let mut line = if p.shadow.iter().any(|k| k == "fresh") {
            let me = std::env::current_exe().expect("driver");
            let r = std::process::Command::new(me).args(["one", &args[2], &p.id])
                .envs([("TZ", "Asia/Kolkata"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("ZSTD_CLEVEL", "19"), ("ZSTD_NBTHREADS", "2"),
                       ("SOURCE_DATE_EPOCH", "1"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("HOME", "/"), ("USER", "nobody"), ("HOSTNAME", "h")])
                .env_remove("PATH").output().expect("fresh process");
            if !r.status.success() { std::process::abort(); }
            String::from_utf8(r.stdout).expect("trace")
        } else if p.tag == "large" {
            run_large(p)
        } else {
            run(p, &index)
        };
        line.push('\n');
        out.write_all(line.as_bytes()).expect("write trace");
    }
}
