//! The bounded reader and variable byte integers: C11 C12.
use super::decode::{compare, finish};
use crate::explore::*;
use crate::obs::*;
use crate::spec::{self, put_var, put_var_n, MAXVAR};
use crate::trace::{self, mix};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use std::io::BufReader;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Take(u32),
    Reset,
    Len(u32),
    U8,
    U16,
    U32,
    Bool,
    HasMore,
    Consume,
    Text,
    Binary,
    Var,
}

const OPS: [Op; 17] = [
    Op::Take(0),
    Op::Take(1),
    Op::Take(2),
    Op::Take(3),
    Op::Take(5),
    Op::Take(MAXVAR),
    Op::Reset,
    Op::Len(0),
    Op::Len(1),
    Op::Len(2),
    Op::Len(3),
    Op::U8,
    Op::U16,
    Op::U32,
    Op::Bool,
    Op::HasMore,
    Op::Consume,
];

/// the reader as documented: a position and a stack of absolute limits
#[derive(Clone, Default, Debug)]
struct Model {
    pos: usize,
    ends: Vec<usize>,
    len: usize,
}

enum Want {
    Unit,
    Bool(bool),
    Bytes(Vec<u8>),
    Err,
    /// the source ran out, or a field of several parts failed in the middle: any error, and nothing is said about what follows
    Out,
}

impl Model {
    fn left(&self) -> Option<usize> {
        self.ends.last().map(|e| e - self.pos)
    }
    fn read(&mut self, n: usize, data: &[u8]) -> Want {
        if let Some(l) = self.left() {
            if n > l {
                return Want::Err;
            }
        }
        if self.pos + n > self.len {
            return Want::Out;
        }
        self.pos += n;
        Want::Bytes(data[self.pos - n..self.pos].to_vec())
    }
    fn step(&mut self, op: Op, data: &[u8]) -> Want {
        match op {
            Op::Take(n) => {
                let e = self.pos + n as usize;
                let e = self.ends.last().map(|x| e.min(*x)).unwrap_or(e);
                self.ends.push(e);
                Want::Unit
            }
            Op::Reset => {
                self.ends.pop();
                Want::Unit
            }
            Op::Len(n) => self.read(n as usize, data),
            Op::U8 | Op::Bool => self.read(1, data),
            Op::U16 => self.read(2, data),
            Op::U32 => self.read(4, data),
            Op::HasMore => Want::Bool(match self.left() {
                Some(l) => l > 0,
                None => self.pos < self.len,
            }),
            Op::Consume => match self.left() {
                None => Want::Err,
                Some(l) => self.read(l, data),
            },
            Op::Text | Op::Binary => match self.read(2, data) {
                Want::Bytes(l) => match self.read((l[0] as usize) << 8 | l[1] as usize, data) {
                    Want::Bytes(b) if op == Op::Text && std::str::from_utf8(&b).is_err() => Want::Out,
                    Want::Bytes(b) => Want::Bytes(b),
                    // the length has been read, the content has not
                    _ => Want::Out,
                },
                w => w,
            },
            Op::Var => {
                let mut n = 0u32;
                for i in 0..4 {
                    match self.read(1, data) {
                        Want::Bytes(b) => {
                            n |= (b[0] as u32 & 0x7F) << (7 * i);
                            if b[0] < 0x80 {
                                return Want::Bytes(n.to_be_bytes().to_vec());
                            }
                        }
                        _ => return Want::Out,
                    }
                }
                Want::Out
            }
        }
    }
    fn hash(&self) -> u64 {
        let mut h = mix(self.len as u64 * 1000 + self.pos as u64);
        for e in &self.ends {
            h = mix(h ^ *e as u64)
        }
        h
    }
}

fn apply(r: &mut ByteReader<&[u8]>, op: Op) -> Result<Option<Vec<u8>>, String> {
    let be = |n: u64, k: usize| n.to_be_bytes()[8 - k..].to_vec();
    Ok(match op {
        Op::Take(n) => {
            r.take(n);
            None
        }
        Op::Reset => {
            r.reset_limit();
            None
        }
        Op::Len(n) => Some(r.read_len(n)?),
        Op::U8 => Some(vec![r.read_u8()?]),
        Op::U16 => Some(be(r.read_u16()? as u64, 2)),
        Op::U32 => Some(be(r.read_u32()? as u64, 4)),
        Op::Bool => Some(vec![r.read_bool_byte()? as u8]),
        Op::HasMore => Some(vec![r.has_more() as u8]),
        Op::Consume => Some(r.consume()?),
        Op::Text => Some(r.read_utf8_string()?.into_bytes()),
        Op::Binary => Some(r.read_binary()?),
        Op::Var => Some(be(r.read_variable_int()? as u64, 4)),
    })
}

pub fn c11(quick: bool) -> Vec<Run> {
    // every byte differs, so that a skipped or repeated byte shows
    const DATA: [u8; 14] = [0x81, 0x02, 0x83, 0x04, 0x00, 0x06, 0x87, 0x08, 0x89, 0x0A, 0x8B, 0x0C, 0x8D, 0x0E];
    // every suffix starts with a plausible text, binary field or number
    const FIELDS: [u8; 14] = [0x00, 0x01, b'a', 0x00, 0x00, 0x00, 0x02, 0xC3, 0xA9, 0x81, 0x01, 0x00, 0x01, 0xFF];
    let body = |ch: &mut Ch, cx: &mut Cx, sizes: &[usize], depth: usize, ops: &[Op]| -> Out {
        let n = sizes[ch.pick(sizes.len())];
        let data = if ops.contains(&Op::Text) { &FIELDS[..n] } else { &DATA[..n] };
        let cap = if depth > 4 { n.max(1) } else { [n.max(1), 1, 3][ch.pick(3)] };
        let mut m = Model { pos: 0, ends: vec![], len: n };
        let mut r = ByteReader::new(BufReader::with_capacity(cap, data));
        let mut log = vec![];
        trace::model_start(n as u64);
        trace::push(m.hash());
        for _ in 0..depth {
            let op = ops[ch.pick(ops.len())];
            let want = m.step(op, data);
            let got = imp(|| apply(&mut r, op));
            if cx.verbose {
                cx.describe(|| format!("{op:?} -> {got:?}"));
            }
            log.push(op);
            let bad = |w: String| {
                Err(Fail::new(format!(
                    "source of {n} bytes {}, capacity {cap}, operations {log:?}: the last one gave {got:?}, {w}",
                    hex(data)
                )))
            };
            match (want, &got) {
                (Want::Unit, Ok(None)) => {}
                (Want::Bool(b), Ok(Some(g))) => {
                    if g != &vec![b as u8] {
                        return bad(format!("not {b}"));
                    }
                }
                (Want::Bytes(w), Ok(Some(g))) => {
                    let w = if op == Op::Bool { vec![(w[0] != 0) as u8] } else { w };
                    if *g != w {
                        return bad(format!("not {w:?}"));
                    }
                }
                (Want::Err, Err(_)) => cx.count("reads across a limit refused"),
                (Want::Out, Err(_)) => {
                    cx.count("source exhausted");
                    break;
                }
                (Want::Err | Want::Out, _) => return bad("an error was expected".into()),
                (Want::Bytes(w), Err(_)) => return bad(format!("not {w:?}")),
                _ => return bad("not what was expected".into()),
            }
            trace::push(m.hash());
            cx.count("operations");
        }
        let mut h = m.hash();
        for o in &log {
            h = mix(h ^ ops.iter().position(|x| x == o).unwrap_or(0) as u64);
        }
        cx.outcome(h);
        cx.sample(|| format!("{n} bytes: {log:?} ends at {m:?}"));
        Ok(())
    };
    const FIELD_OPS: [Op; 13] = [
        Op::Take(1),
        Op::Take(2),
        Op::Take(3),
        Op::Take(5),
        Op::Take(MAXVAR),
        Op::Reset,
        Op::U8,
        Op::HasMore,
        Op::Consume,
        Op::Len(2),
        Op::Text,
        Op::Binary,
        Op::Var,
    ];
    const FEW: [Op; 9] =
        [Op::Take(1), Op::Take(2), Op::Take(3), Op::Take(MAXVAR), Op::Reset, Op::U8, Op::U16, Op::Consume, Op::HasMore];
    vec![
        Run::new(
            "all-operations",
            if quick { "every sequence of five out of 17 operations over sources of 0, 3, 6 bytes" } else { "every sequence of six out of 17 operations over sources of 0, 3, 6 bytes" },
            0,
            move |ch, cx| body(ch, cx, &[6, 0, 3], if quick { 5 } else { 6 }, &OPS),
        ),
        Run::new("capacities", "every sequence of four out of 17 operations over sources of 0, 1, 3, 6 bytes, three buffer capacities", 0, move |ch, cx| {
            body(ch, cx, &[6, 0, 1, 3], 4, &OPS)
        }),
        Run::new(
            "deep",
            if quick { "every sequence of eight out of nine operations over sources of 12 and 3 bytes" } else { "every sequence of nine out of nine operations over sources of 12 and 3 bytes" },
            0,
            move |ch, cx| body(ch, cx, &[12, 3], if quick { 8 } else { 9 }, &FEW),
        ),
        Run::new(
            "fields",
            if quick {
                "every sequence of six out of 13 operations, among them reading texts, binary fields and variable byte integers, over sources of 14, 9 and 3 bytes"
            } else {
                "every sequence of seven out of 13 operations, among them reading texts, binary fields and variable byte integers, over sources of 14, 9 and 3 bytes"
            },
            0,
            move |ch, cx| body(ch, cx, &[14, 9, 3], if quick { 6 } else { 7 }, &FIELD_OPS),
        ),
        Run::new("source-windows", "two nested windows of every size that the source names, and some more, over sources shorter, as long and longer; reads up to, at and across their ends; as many nested windows, and as many reads in one", 0, move |ch, cx| {
            let mut sizes = vec![0usize, 1, 2, 3, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, 100_000];
            let lit = crate::src::ints(4, MAXVAR);
            sizes.extend(lit.iter().map(|x| *x as usize));
            let w = sizes[ch.pick(sizes.len())];
            let seq: Vec<Op>;
            let len;
            match ch.pick(3) {
                0 => {
                    // two windows, the inner one of w bytes or the outer one
                    let outer = match ch.pick(5) { 0 => w, 1 => w + 1, 2 => w + 30, 3 => w / 2, _ => MAXVAR as usize };
                    len = match ch.pick(4) { 0 => w, 1 => w.saturating_sub(1), 2 => w + 1, _ => w + 40 }.min(200_000);
                    let before = [Op::HasMore, Op::Len(1), Op::U16][ch.pick(3)];
                    let inside = match ch.pick(6) {
                        0 => Op::Len(w as u32),
                        1 => Op::Len(w as u32 + 1),
                        2 => Op::Len(w.saturating_sub(1) as u32),
                        3 => Op::Len(w as u32 / 2),
                        4 => Op::Consume,
                        _ => Op::U8,
                    };
                    let then = [Op::Consume, Op::U8, Op::U16][ch.pick(3)];
                    seq = vec![Op::Take(outer.min(MAXVAR as usize) as u32), before, Op::Take(w as u32), inside, Op::HasMore, then, Op::HasMore,
                        Op::Reset, Op::HasMore, Op::U8, Op::Consume, Op::HasMore, Op::Reset, Op::HasMore, Op::U8, Op::HasMore];
                }
                1 => {
                    // w windows, each as large as the one around it or a byte smaller
                    let w = w.min(20_000);
                    len = w + 20;
                    let equal = ch.pick(2) == 0;
                    let mut s: Vec<Op> = (0..w).map(|i| Op::Take(if equal { w as u32 + 2 } else { (2 * w - i) as u32 })).collect();
                    s.push(Op::U16);
                    for i in 0..w {
                        s.push(Op::HasMore);
                        if i % 3 == 0 {
                            s.push(Op::U8)
                        }
                        s.push(Op::Reset);
                    }
                    s.extend([Op::HasMore, Op::U8, Op::Take(1), Op::U8, Op::U8, Op::Reset, Op::U8]);
                    seq = s;
                }
                _ => {
                    // w reads in a window that holds as many, one more or one less
                    let w = w.min(20_000);
                    let size = (w + 1).saturating_sub(ch.pick(3));
                    len = w + 20;
                    let mut s = vec![Op::Take(size as u32)];
                    s.extend(std::iter::repeat_n(Op::U8, w));
                    s.extend([Op::HasMore, Op::U8, Op::HasMore, Op::Reset, Op::HasMore, Op::U16]);
                    seq = s;
                }
            }
            let data: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
            let cap = [8192usize, 1, len.max(1)][ch.pick(3)];
            let mut m = Model { pos: 0, ends: vec![], len };
            let mut r = ByteReader::new(BufReader::with_capacity(cap, &data[..]));
            trace::model_start(len as u64);
            for (i, op) in seq.iter().enumerate() {
                let want = m.step(*op, &data);
                let got = imp(|| apply(&mut r, *op));
                let ok = match (&want, &got) {
                    (Want::Unit, Ok(None)) => true,
                    (Want::Bool(b), Ok(Some(g))) => g == &vec![*b as u8],
                    (Want::Bytes(w), Ok(Some(g))) => g == w,
                    (Want::Err, Err(_)) => true,
                    (Want::Out, Err(_)) => break,
                    _ => false,
                };
                if !ok {
                    let got: String = format!("{got:?}").chars().take(200).collect();
                    let s = &seq[..=i];
                    return Err(Fail::new(format!("source of {len} bytes, capacity {cap}, {} operations, the first {:?}, the last {:?}: the last one gave {got}", s.len(), &s[..s.len().min(20)], &s[s.len().saturating_sub(20)..])));
                }
                if i < 100 {
                    trace::push(mix(m.pos as u64 ^ (m.ends.len() as u64) << 32));
                }
                cx.count("operations");
            }
            cx.outcome(m.hash() ^ seq.len() as u64);
            Ok(())
        }),
        Run::new("nesting", "every way to nest up to five limits with up to three reads at each level, then to drop them with a read after each", 0, |ch, cx| {
            // takes with a read between each, then resets with reads between each
            let data = &DATA;
            let mut m = Model { pos: 0, ends: vec![], len: data.len() };
            let mut r = ByteReader::new(BufReader::with_capacity(data.len(), &data[..]));
            let mut log = vec![];
            trace::model_start(77);
            let depth = 1 + ch.pick(4);
            let mut seq = vec![];
            for i in 0..depth {
                seq.push(Op::Take([10u32, 8, 6, 4, 2, 0, 12][ch.pick(if i == 0 { 7 } else { 6 })]));
                match ch.pick(4) {
                    0 => {}
                    1 => seq.push(Op::U8),
                    2 => seq.push(Op::U16),
                    _ => seq.push(Op::Len(3)),
                }
            }
            for _ in 0..depth {
                match ch.pick(3) {
                    0 => {}
                    1 => seq.push(Op::Consume),
                    _ => seq.push(Op::U8),
                }
                seq.push(Op::HasMore);
                seq.push(Op::Reset);
            }
            seq.push(Op::HasMore);
            seq.push(Op::U8);
            for op in seq {
                let want = m.step(op, data);
                let got = imp(|| apply(&mut r, op));
                log.push(op);
                let ok = match (&want, &got) {
                    (Want::Unit, Ok(None)) => true,
                    (Want::Bool(b), Ok(Some(g))) => g == &vec![*b as u8],
                    (Want::Bytes(w), Ok(Some(g))) => g == w,
                    (Want::Err, Err(_)) => true,
                    (Want::Out, Err(_)) => return Ok(()),
                    _ => false,
                };
                if !ok {
                    return Err(Fail::new(format!("source {}, operations {log:?}: the last one gave {got:?}", hex(data))));
                }
                trace::push(m.hash());
                cx.count("operations");
            }
            cx.outcome(m.hash() ^ log.len() as u64);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------- C12

fn check_number(n: u32, cx: &mut Cx) -> Out {
    let mut want = vec![];
    put_var(&mut want, n);
    let got = imp(|| {
        let mut w = MqttWriter::new(0);
        let mut w2 = MqttWriter::new(8);
        (w.write_variable_num(n).map(|_| w.into_vec()), MqttWriter::encode_variable_num(n), {
            w2.write_u8(0xEE);
            let r = w2.write_variable_num(n);
            w2.write_u8(0xDD);
            r.map(|_| w2.into_vec())
        })
    });
    let _ = &mut *cx;
    if got.0.as_ref() != Ok(&want) {
        return Err(Fail::new(format!("{n} is written as {:?}, not {}", got.0, hex(&want))));
    }
    if got.1 != want {
        return Err(Fail::new(format!("{n} is encoded as {:?}, not {}", got.1, hex(&want))));
    }
    match &got.2 {
        Ok(x) if x[0] == 0xEE && x[1..x.len() - 1] == want[..] && x[x.len() - 1] == 0xDD => {}
        x => return Err(Fail::new(format!("{n} is written among other bytes as {x:?}"))),
    }
    let l = want.len();
    want.extend([0xAB, 0xCD]);
    let mut r = reader(&want);
    let (x, rest) = imp(|| (r.read_variable_int(), r.read_u16()));
    if x != Ok(n) || rest != Ok(0xABCD) {
        return Err(Fail::new(format!("{} reads as {x:?}, what follows as {rest:?}", hex(&want[..l]))));
    }
    Ok(())
}

fn check_bytes(b: &[u8], cx: &mut Cx) -> Out {
    let mut r = reader(b);
    let got = imp(|| r.read_variable_int());
    let bad = |w: String| Err(Fail::new(format!("bytes {} read as {got:?}, {w}", hex(b))));
    match spec::varint(b) {
        spec::Var::Ok { value, len, minimal } => {
            match got {
                Ok(v) if v != value => return bad(format!("not {value}")),
                Err(_) if minimal => return bad(format!("not {value}")),
                Err(_) => {
                    cx.count("longer than necessary, refused");
                    return Ok(());
                }
                Ok(_) => {}
            }
            let rest = imp(|| r.read_len((b.len() - len) as u32));
            if rest.as_ref() != Ok(&b[len..].to_vec()) {
                return bad(format!("then {rest:?}"));
            }
            cx.count("read");
        }
        spec::Var::TooLong => {
            if got.is_ok() {
                return bad("although it does not end within four bytes".into());
            }
            cx.count("refused");
        }
        spec::Var::Incomplete => {
            if got.is_ok() {
                return bad("although it is cut short".into());
            }
            cx.count("cut short, refused");
        }
    }
    Ok(())
}

pub fn c12(quick: bool) -> Vec<Run> {
    const BATCH: u32 = 4096;
    let mut v = vec![
        Run::new("numbers", "every number from 0 to 268435455, written and read back", 0, move |ch, cx| {
            let k = ch.pick((MAXVAR / BATCH + 1) as usize) as u32 * BATCH;
            trace::model_start(0);
            trace::push(mix(k as u64));
            cx.outcome(mix(k as u64));
            for n in k..k + BATCH {
                check_number(n, cx)?;
            }
            cx.add("numbers", BATCH as u64);
            cx.sample(|| format!("numbers from {k}"));
            Ok(())
        }),
        Run::new(
            "too-large",
            "numbers above 268435455: every one of the next 65536, every single bit, every top byte",
            0,
            |ch, cx| {
                let n = match ch.pick(3) {
                    0 => MAXVAR + 1 + ch.pick(65536) as u32,
                    1 => (1u32 << (28 + ch.pick(4))) | ch.pick(65536) as u32,
                    _ => u32::MAX - ch.pick(65536) as u32,
                };
                let r = imp(|| {
                    let mut w = MqttWriter::new(0);
                    w.write_variable_num(n).map(|_| w.into_vec())
                });
                cx.outcome(n as u64);
                match r {
                    Err(_) => Ok(()),
                    Ok(b) => Err(Fail::new(format!("{n} is written as {}", hex(&b)))),
                }
            },
        ),
        Run::new(
            "encodings",
            "every string of one to three bytes, and of four to six bytes with the second and third from the edges",
            0,
            |ch, cx| {
                let n = ch.pick(6) + 1;
                const E: [u8; 9] = [0x00, 0x01, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xFE, 0xFF];
                let mut b = vec![];
                if n <= 3 {
                    for _ in 0..n - 1 {
                        b.push(ch.pick(256) as u8)
                    }
                    for last in 0..=255u8 {
                        b.push(last);
                        check_bytes(&b, cx)?;
                        b.pop();
                    }
                } else {
                    b.push(E[ch.pick(9)]);
                    b.push(E[ch.pick(9)]);
                    b.push(E[ch.pick(9)]);
                    for x in 0..=255u8 {
                        b.truncate(3);
                        b.push(x);
                        let rest = n - 4;
                        for k in 0..9usize.pow(rest as u32) {
                            b.truncate(4);
                            let mut q = k;
                            for _ in 0..rest {
                                b.push(E[q % 9]);
                                q /= 9;
                            }
                            check_bytes(&b, cx)?;
                        }
                    }
                }
                let mut h = n as u64;
                for x in &b {
                    h = mix(h ^ *x as u64)
                }
                cx.outcome(h);
                trace::model_start(n as u64);
                trace::push(h);
                cx.sample(|| format!("encodings up to {}", hex(&b)));
                Ok(())
            },
        ),
        Run::new("in-limits", "integers of every width inside a reader limit of every size", 0, |ch, cx| {
            let n = [0u32, 1, 127, 128, 16383, 16384, 2_097_151, 2_097_152, MAXVAR][ch.pick(9)];
            let w = 1 + ch.pick(4);
            let mut b = vec![];
            put_var_n(&mut b, n, w);
            let l = b.len();
            b.extend([0x01, 0x02, 0x03]);
            let lim = ch.pick(8);
            let mut r = reader(&b);
            let fits = n < 1 << (7 * w.min(4));
            if !fits {
                return Ok(());
            }
            let got = imp(|| {
                r.take(lim as u32);
                r.read_variable_int()
            });
            cx.outcome(mix(n as u64 ^ (w as u64) << 32 ^ (lim as u64) << 40));
            match got {
                Ok(_) if lim < l => Err(Fail::new(format!("{} read past a limit of {lim}", hex(&b)))),
                Ok(x) if x != n => Err(Fail::new(format!("{} read as {x}", hex(&b)))),
                Err(e) if lim >= l && (w == 1 || n >= 1 << (7 * (w - 1))) => {
                    Err(Fail::new(format!("{} refused within a limit of {lim}: {e}", hex(&b))))
                }
                _ => Ok(()),
            }
        }),
        Run::new(
            "in-packets",
            "remaining length, section length and subscription identifier of every width, padded, unterminated; also with every number that the source names",
            0,
            |ch, cx| {
                let place = ch.pick(4);
                let mut n =
                    vec![0u32, 1, 2, 100, 127, 128, 129, 300, 16383, 16384, 16385, 70000, 2_097_151, 2_097_152, MAXVAR];
                n.extend(crate::src::ints(3, MAXVAR));
                let n = n[ch.pick(n.len())];
                let form = ch.pick(7);
                let var = |out: &mut Vec<u8>, n: u32| match form {
                    0 => put_var(out, n),
                    1..=3 => put_var_n(
                        out,
                        n,
                        if n < 128 {
                            form + 1
                        } else if n < 16384 {
                            (form + 1).max(2)
                        } else {
                            4
                        },
                    ),
                    4 => {
                        put_var_n(out, n, 4);
                        let l = out.len();
                        out[l - 1] |= 0x80;
                    }
                    5 => {
                        put_var_n(out, n, 4);
                        let l = out.len();
                        out[l - 1] |= 0x80;
                        out.push(0)
                    }
                    _ => {
                        put_var_n(out, n, 4);
                        let l = out.len();
                        out[l - 1] |= 0x80;
                        out.push(1)
                    }
                };
                let (b, v) = match place {
                    // remaining length of a PUBLISH
                    0 => {
                        if n < 4 || n > 3_000_000 {
                            return Ok(());
                        }
                        let mut b = vec![0x30];
                        var(&mut b, n);
                        b.extend([0, 2, b'a', b'b']);
                        b.resize(b.len() + n as usize - 4, 7);
                        (b, 4)
                    }
                    // property section
                    1 => {
                        let mut p = vec![];
                        if n > 100_000 {
                            return Ok(());
                        }
                        if n > 0 && n < 6 {
                            return Ok(());
                        }
                        if n > 0 {
                            // one user property of exactly n bytes, or several
                            let mut left = n as usize;
                            while left > 0 {
                                let k = if left > 60_000 { 50_000 } else { left };
                                p.extend([0x26, 0, 1, b'k', ((k - 6) >> 8) as u8, (k - 6) as u8]);
                                p.resize(p.len() + k - 6, b'v');
                                left -= k;
                            }
                        }
                        let mut x = vec![0, 1, b't'];
                        var(&mut x, n);
                        x.extend(p);
                        x.extend(b"rest");
                        (finish(0x30, &x), 5)
                    }
                    // subscription identifier of a PUBLISH, of a SUBSCRIBE
                    2 => {
                        let mut p = vec![0x0B];
                        var(&mut p, n);
                        let mut x = vec![0, 1, b't', p.len() as u8];
                        x.extend(p);
                        x.extend(b"rest");
                        (finish(0x30, &x), 5)
                    }
                    _ => {
                        let mut p = vec![0x0B];
                        var(&mut p, n);
                        let mut x = vec![0, 1, p.len() as u8];
                        x.extend(p);
                        x.extend([0, 1, b't', 0]);
                        (finish(0x82, &x), 5)
                    }
                };
                compare(Part::Both, &b, v, cx, false)
            },
        ),
    ];
    if !quick {
        v.push(Run::new("all-four-byte-encodings", "every string of four bytes", 0, |ch, cx| {
            let (a, b) = (ch.pick(256) as u8, ch.pick(256) as u8);
            let mut x = vec![a, b, 0, 0, 0x55];
            for c in 0..=255u8 {
                for d in 0..=255u8 {
                    x[2] = c;
                    x[3] = d;
                    check_bytes(&x, cx)?;
                }
            }
            cx.outcome(a as u64 * 256 + b as u64);
            Ok(())
        }));
    }
    v
}
