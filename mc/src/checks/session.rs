//! Primitive fields, and whole sessions of two endpoints: C22 C23.
use super::encode::same_result;
use crate::explore::*;
use crate::gen::{self, Mode};
use crate::obs::*;
use crate::spec::{self, *};
use crate::trace::{self, mix};
use crate::wire;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::*;
use std::io::BufReader;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------- C22

fn written(f: impl FnOnce(&mut MqttWriter) -> Res<()>) -> Res<Vec<u8>> {
    imp(|| {
        let mut w = MqttWriter::new(8);
        // something is there already
        w.write_u8(0xA5);
        f(&mut w)?;
        Ok(w.into_vec())
    })
}

fn expect(what: &str, got: Res<Vec<u8>>, want: &[u8]) -> Out {
    match got {
        Ok(b) if b.first() == Some(&0xA5) && &b[1..] == want => Ok(()),
        Ok(b) => Err(Fail::new(format!("{what} writes {} after the byte a5, not {}", hexs(&b), hexs(want)))),
        Err(e) => Err(Fail::new(format!("{what} is refused ({e})"))),
    }
}

/// the reader stands at the first byte, the field is followed by two bytes which must remain
fn reads<T: PartialEq + std::fmt::Debug>(
    what: &str,
    b: &[u8],
    cap: usize,
    want: &Res<T>,
    f: impl Fn(&mut ByteReader<&[u8]>) -> Res<T>,
) -> Out {
    let mut x = b.to_vec();
    x.extend([0x5A, 0x3C]);
    // unlimited, limited to the field, and limited beyond it
    for limit in [None, Some(b.len() as u32), Some(b.len() as u32 + 1)] {
        let mut r = imp(|| ByteReader::new(BufReader::with_capacity(cap, &x[..])));
        if let Some(l) = limit {
            imp(|| r.take(l));
        }
        let got = imp(|| f(&mut r));
        match (want, &got) {
            (Ok(w), Ok(g)) if w == g => {}
            (Err(_), Err(_)) => continue,
            _ => {
                return Err(Fail::new(format!(
                    "{what} reads {} (limit {limit:?}, capacity {cap}) as {}, not {}",
                    hexs(b),
                    short(&got),
                    short(want)
                )))
            }
        }
        if let Some(l) = limit {
            if imp(|| r.has_more()) != (l as usize > b.len()) {
                return Err(Fail::new(format!("{what} leaves the wrong rest of a limit of {l}: {}", hexs(b))));
            }
            imp(|| r.reset_limit());
        }
        let rest = imp(|| r.read_len(2));
        if rest.as_deref() != Ok(&[0x5A, 0x3C]) {
            return Err(Fail::new(format!(
                "{what} does not stop at the end of the field {} (limit {limit:?}): {rest:?}",
                hexs(b)
            )));
        }
    }
    if b.is_empty() {
        return Ok(());
    }
    // one byte short: by a limit, or because the source ends. An error, and nothing else.
    for short_by in [1usize, b.len().div_ceil(2), b.len()] {
        let n = b.len() - short_by;
        let mut r = imp(|| ByteReader::new(BufReader::with_capacity(cap, &x[..])));
        imp(|| r.take(n as u32));
        if let Ok(g) = imp(|| f(&mut r)) {
            return Err(Fail::new(format!("{what} reads {} across a limit of {n}: {}", hexs(b), short(&g))));
        }
        let mut r = imp(|| ByteReader::new(BufReader::with_capacity(cap, &x[..n])));
        if let Ok(g) = imp(|| f(&mut r)) {
            return Err(Fail::new(format!("{what} reads {} from a source of {n} bytes: {}", hexs(b), short(&g))));
        }
    }
    Ok(())
}

fn state(kind: u64, b: &[u8], cx: &mut Cx) {
    let mut h = kind;
    for x in b.iter().take(64) {
        h = mix(h ^ *x as u64);
    }
    h = mix(h ^ b.len() as u64);
    trace::model_start(kind);
    trace::push(h);
    cx.outcome(h);
    cx.sample(|| format!("field {}", hexs(b)));
}

fn lp(s: &[u8]) -> Vec<u8> {
    let mut v = vec![(s.len() >> 8) as u8, s.len() as u8];
    v.extend_from_slice(s);
    v
}

fn check_text(s: &str, cap: usize, cx: &mut Cx) -> Out {
    cx.describe(|| format!("text of {} bytes: {}", s.len(), short(&s)));
    let a = written(|w| w.write_utf8_string(s.to_string()));
    let b = written(|w| w.write_utf8_str(s));
    if s.len() > 65535 {
        for (n, r) in [("write_utf8_string", a), ("write_utf8_str", b)] {
            if let Ok(x) = r {
                return Err(Fail::new(format!("{n} writes a text of {} bytes: {}", s.len(), hexs(&x))));
            }
        }
        cx.count("too long, refused");
        return Ok(());
    }
    let want = lp(s.as_bytes());
    expect("write_utf8_string", a, &want)?;
    expect("write_utf8_str", b, &want)?;
    reads("read_utf8_string", &want, cap, &Ok(s.to_string()), |r| r.read_utf8_string())?;
    reads("read_binary", &want, cap, &Ok(s.as_bytes().to_vec()), |r| r.read_binary())?;
    state(1, &want, cx);
    cx.count("texts");
    Ok(())
}

fn check_binary(s: &[u8], cap: usize, cx: &mut Cx) -> Out {
    cx.describe(|| format!("binary of {} bytes: {}", s.len(), hexs(s)));
    let a = written(|w| w.write_binary(s.to_vec()));
    let b = written(|w| w.write_binary_ref(s));
    if s.len() > 65535 {
        for (n, r) in [("write_binary", a), ("write_binary_ref", b)] {
            if let Ok(x) = r {
                return Err(Fail::new(format!("{n} writes {} bytes: {}", s.len(), hexs(&x))));
            }
        }
        cx.count("too long, refused");
        return Ok(());
    }
    let want = lp(s);
    expect("write_binary", a, &want)?;
    expect("write_binary_ref", b, &want)?;
    reads("read_binary", &want, cap, &Ok(s.to_vec()), |r| r.read_binary())?;
    // the same bytes as text
    let text = match spec::utf8(s) {
        Some(t) => Ok(t),
        None => Err("not UTF-8".to_string()),
    };
    reads("read_utf8_string", &want, cap, &text, |r| r.read_utf8_string())?;
    state(2, &want, cx);
    cx.count(if text.is_ok() { "binary data, also a text" } else { "binary data, no text" });
    Ok(())
}

/// a field of every kind: its bytes and how to read it
fn field_of(i: usize) -> (Vec<u8>, usize) {
    match i {
        0 => (vec![0xFE], 0),
        1 => (vec![0x01, 0x80], 1),
        2 => (vec![0xFF, 0, 0x7F, 0x80], 2),
        3 => (vec![0], 3),
        4 => (vec![0x7F], 3),
        5 => (vec![0x80, 0x01], 3),
        6 => (vec![0xFF, 0xFF, 0x7F], 3),
        7 => (vec![0xFF, 0xFF, 0xFF, 0x7F], 3),
        8 => (lp(b""), 4),
        9 => (lp(b"x"), 4),
        10 => (lp("é€".as_bytes()), 4),
        11 => (lp(&[b'y'; 130]), 4),
        12 => (lp(b""), 5),
        13 => (lp(&[0xFF]), 5),
        14 => (lp(&[0x80; 256]), 5),
        15 => (vec![1], 6),
        _ => (vec![], 7),
    }
}

fn read_field(r: &mut ByteReader<&[u8]>, kind: usize) -> Res<Vec<u8>> {
    Ok(match kind {
        0 => vec![r.read_u8()?],
        1 => r.read_u16()?.to_be_bytes().to_vec(),
        2 => r.read_u32()?.to_be_bytes().to_vec(),
        3 => r.read_variable_int()?.to_be_bytes().to_vec(),
        4 => r.read_utf8_string()?.into_bytes(),
        5 => r.read_binary()?,
        6 => vec![r.read_bool_byte()? as u8],
        _ => r.read_len(0)?,
    })
}

fn want_field(b: &[u8], kind: usize) -> Vec<u8> {
    match kind {
        3 => b.iter().rev().fold(0u32, |a, x| a * 128 + (*x & 127) as u32).to_be_bytes().to_vec(),
        4 | 5 => b[2..].to_vec(),
        _ => b.to_vec(),
    }
}

/// the value of a property list item in a comparable form
#[cfg(feature = "proplists")]
fn plain(p: &PropType) -> Vec<Vec<u8>> {
    let t = |k: u8, v: &[u8]| {
        let mut x = vec![k];
        x.extend(v);
        vec![x]
    };
    match p {
        PropType::U32(n) => t(4, &n.to_be_bytes()),
        PropType::U16(n) => t(2, &n.to_be_bytes()),
        PropType::U8(n) => t(1, &[*n]),
        PropType::Bool(n) => t(0, &[*n as u8]),
        PropType::VarInt(n) => t(5, &n.to_be_bytes()),
        PropType::Str(s) => t(6, s.as_bytes()),
        PropType::String(s) => t(6, s.as_bytes()),
        PropType::Binary(s) => t(7, s),
        PropType::BinaryRef(s) => t(7, s),
        PropType::Map(m) => plain_map(m),
        PropType::MapRef(m) => plain_map(m),
        _ => vec![],
    }
}

#[cfg(feature = "proplists")]
fn plain_map(m: &UserProperties) -> Vec<Vec<u8>> {
    let mut l: Vec<_> = m.iter().collect();
    l.sort();
    l.into_iter()
        .flat_map(|(k, v)| {
            let mut x = vec![k.clone().into_bytes()];
            x.extend(v.iter().map(|s| s.clone().into_bytes()));
            x.push(vec![]);
            x
        })
        .collect()
}

#[cfg(feature = "proplists")]
const PROP_CODES: [(u8, u8); 25] = [
    (0x01, 0),
    (0x02, 4),
    (0x03, 6),
    (0x08, 6),
    (0x09, 7),
    (0x11, 4),
    (0x12, 6),
    (0x13, 2),
    (0x15, 6),
    (0x16, 6),
    (0x17, 0),
    (0x18, 4),
    (0x19, 0),
    (0x1A, 6),
    (0x1C, 6),
    (0x1F, 6),
    (0x21, 2),
    (0x22, 2),
    (0x23, 2),
    (0x24, 1),
    (0x25, 0),
    (0x27, 4),
    (0x28, 0),
    (0x29, 0),
    (0x2A, 0),
];

#[cfg(feature = "proplists")]
fn property_list(ch: &mut Ch, max: usize, cx: &mut Cx) -> Out {
    let n = ch.pick(max + 1);
    let mut left: Vec<usize> = (0..PROP_CODES.len()).collect();
    let edge = ch.pick(3);
    let long = gen::fill("long", 130);
    let mut list: Vec<(u8, PropType)> = vec![];
    for _ in 0..n {
        let (code, t) = PROP_CODES[left.remove(ch.pick(left.len()))];
        list.push((
            code,
            match t {
                0 => PropType::Bool(edge != 1),
                1 => PropType::U8([1, 0, 255][edge]),
                2 => PropType::U16([0x0102, 0, 0xFFFF][edge]),
                4 => PropType::U32([0x01020304, 0, 0xFFFF_FFFF][edge]),
                6 if ch.pick(2) == 1 => PropType::String(["text", "", &long][edge].to_string()),
                6 => PropType::Str(["text", "", &long][edge]),
                _ if ch.pick(2) == 1 => PropType::Binary([&[9u8, 0xC3][..], &[], &[0x80; 130]][edge].to_vec()),
                _ => PropType::BinaryRef([&[9u8, 0xC3][..], &[], &[0x80; 130]][edge]),
            },
        ));
    }
    for _ in 0..ch.pick(3) {
        list.push((0x0B, PropType::VarInt([300, 0, MAXVAR][edge])));
    }
    let mut m = UserProperties::new();
    match ch.pick(5) {
        0 => {}
        1 => {
            m.insert("".into(), vec!["".into()]);
        }
        2 => {
            m.insert("k".into(), vec!["b".into(), "a".into(), "b".into()]);
        }
        3 => {
            m.insert("k".into(), vec!["v".into()]);
            m.insert("l".into(), vec!["y".into(), "x".into()]);
        }
        _ => {
            m.insert("k".into(), vec![]);
            m.insert("l".into(), vec![long.clone()]);
        }
    }
    let m2 = m.clone();
    m.retain(|_, v| !v.is_empty());
    let refs = ch.pick(2) == 1;
    if m2.is_empty() && refs {
        return Ok(());
    }
    let mut want: Vec<(u8, Vec<Vec<u8>>)> = list.iter().map(|(c, p)| (*c, plain(p))).collect();
    if !m.is_empty() {
        want.push((0x26, plain_map(&m)));
    }
    if !m2.is_empty() {
        list.push((0x26, if refs { PropType::MapRef(&m2) } else { PropType::Map(m2.clone()) }));
    }
    cx.describe(|| format!("properties {}", short(&list)));
    let body = imp(|| -> Res<Vec<u8>> {
        let mut w = MqttWriter::new(0);
        w.write_properties(list)?;
        Ok(w.into_vec())
    });
    let body = match body {
        Ok(b) => b,
        Err(e) => return Err(Fail::new(format!("the list is refused ({e})"))),
    };
    let mut x = vec![];
    put_var(&mut x, body.len() as u32);
    x.extend(&body);
    let end = x.len();
    x.extend([0x5A, 0x3C]);
    let mut r = imp(|| ByteReader::new(BufReader::with_capacity(64, &x[..])));
    let limit = ch.pick(3);
    if limit > 0 {
        imp(|| r.take((end + limit - 1) as u32));
    }
    let got = imp(|| {
        r.read_properties().map(|l| l.unwrap_or_default().iter().map(|(c, p)| (*c, plain(p))).collect::<Vec<_>>())
    });
    if got.as_ref() != Ok(&want) {
        return Err(Fail::new(format!("written {}, read back {}, not {}", hexs(&body), short(&got), short(&want))));
    }
    if limit > 0 {
        if imp(|| r.has_more()) != (limit == 2) {
            return Err(Fail::new(format!("after the properties the wrong rest is left in the window: {}", hexs(&x))));
        }
        imp(|| r.reset_limit());
    }
    let rest = imp(|| r.read_len(2));
    if rest.as_deref() != Ok(&[0x5A, 0x3C]) {
        return Err(Fail::new(format!("reading the properties does not stop at their end: {rest:?}, {}", hexs(&x))));
    }
    cx.count("property lists");
    state(200, &x, cx);
    Ok(())
}

pub fn c22(quick: bool) -> Vec<Run> {
    let caps = [8192usize, 1, 3];
    vec![
        Run::new("u8", "every byte through write_u8, read_u8 and read_bool_byte", 0, |ch, cx| {
            let n = ch.pick(256) as u8;
            cx.describe(|| format!("byte {n:#04x}"));
            expect("write_u8", written(|w| { w.write_u8(n); Ok(()) }), &[n])?;
            reads("read_u8", &[n], 1, &Ok(n), |r| r.read_u8())?;
            reads("read_bool_byte", &[n], 1, &Ok(n != 0), |r| r.read_bool_byte())?;
            state(3, &[n], cx);
            Ok(())
        }),
        Run::new("u16", "every 16-bit number through write_u16 and read_u16, three buffer capacities", 0, move |ch, cx| {
            let n = ch.pick(65536) as u16;
            cx.describe(|| format!("number {n}"));
            let b = [(n / 256) as u8, (n % 256) as u8];
            expect("write_u16", written(|w| { w.write_u16(n); Ok(()) }), &b)?;
            reads("read_u16", &b, caps[ch.pick(3)], &Ok(n), |r| r.read_u16())?;
            state(4, &b, cx);
            Ok(())
        }),
        Run::new("u32", "every 32-bit number with two arbitrary bytes at every position and the others 0, 1, 7f, 80 or ff", 0, move |ch, cx| {
            let (i, j) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][ch.pick(6)];
            let rest = [0u8, 1, 0x7F, 0x80, 0xFF];
            let mut b = [rest[ch.pick(5)]; 4];
            // the two others may differ from each other
            let o = (0..4).rfind(|k| *k != i && *k != j).unwrap();
            b[o] = rest[ch.pick(5)];
            b[i] = ch.pick(256) as u8;
            b[j] = ch.pick(256) as u8;
            let n = b.iter().fold(0u64, |a, x| a * 256 + *x as u64) as u32;
            cx.describe(|| format!("number {n}"));
            expect("write_u32", written(|w| { w.write_u32(n); Ok(()) }), &b)?;
            reads("read_u32", &b, 8192, &Ok(n), |r| r.read_u32())?;
            state(5, &b, cx);
            Ok(())
        }),
        Run::new(
            "lengths",
            if quick {
                "texts and binary data of every length from 0 to 4200, around every multiple of 256 up to 65536, every 37th and beyond 65535"
            } else {
                "texts and binary data of every length from 0 to 66000, three buffer capacities"
            },
            0,
            move |ch, cx| {
                let (n, cap) = if quick {
                    let lit = crate::src::ints(0, 66_000);
                    let v: Vec<usize> = (0..66_000)
                        .filter(|n| *n <= 4200 || n % 256 < 2 || n % 256 == 255 || n % 37 == 0 || *n > 65_500 || lit.binary_search(&(*n as u32)).is_ok())
                        .collect();
                    (v[ch.pick(v.len())], 8192)
                } else {
                    (ch.pick(66_000), caps[ch.pick(3)])
                };
                let n = if n == 65_999 { 131_072 + 5 } else { n };
                let t = gen::fill("t", n);
                if ch.pick(2) == 0 {
                    check_text(&t, cap, cx)
                } else {
                    let mut b = t.into_bytes();
                    if let Some(l) = b.last_mut() {
                        *l = 0xFE
                    }
                    check_binary(&b, cap, cx)
                }
            },
        ),
        Run::new("contents", "every single character below 65536, every special text, every binary string of one or two bytes, as text and as binary data", 0, move |ch, cx| {
            let cap = caps[ch.pick(3)];
            let sp = gen::special_strings();
            match ch.pick(3) {
                0 => match char::from_u32(ch.pick(65536) as u32) {
                    Some(c) => check_text(&c.to_string(), cap, cx),
                    None => Ok(()),
                },
                1 => check_text(&sp[ch.pick(sp.len())], cap, cx),
                _ => {
                    let n = 1 + ch.pick(2);
                    let b: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
                    check_binary(&b, cap, cx)
                }
            }
        }),
        Run::new("utf8", "every binary string of three and four bytes built from the boundary bytes of UTF-8, as text", 0, |ch, cx| {
            const E: [u8; 27] = [
                0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
                0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF,
            ];
            let n = 3 + ch.pick(2);
            let b: Vec<u8> = (0..n).map(|_| E[ch.pick(27)]).collect();
            check_binary(&b, 8192, cx)
        }),
        Run::new(
            "utf8-long",
            "characters of one to four bytes up to 8192 bytes, then every one or two boundary bytes of UTF-8 or a complete, cut or malformed character, then 0, 1 or 70 bytes, as text and as binary data",
            0,
            |ch, cx| {
                let b = super::decode::long_bytes(ch, false);
                check_binary(&b, 8192, cx)
            },
        ),
        Run::new(
            "source-values",
            "every number, text and length that the source of the crate names (one less, one more), as 16-bit and 32-bit number, as text, as binary data",
            0,
            |ch, cx| {
                let t = crate::src::texts();
                let n = crate::src::ints(0, u32::MAX);
                match ch.pick(3) {
                    0 => {
                        let n = n[ch.pick(n.len())];
                        let b = n.to_be_bytes();
                        cx.describe(|| format!("number {n}"));
                        expect("write_u32", written(|w| { w.write_u32(n); Ok(()) }), &b)?;
                        reads("read_u32", &b, 8192, &Ok(n), |r| r.read_u32())?;
                        state(5, &b, cx);
                        Ok(())
                    }
                    1 if t.is_empty() => Ok(()),
                    1 => check_text(&t[ch.pick(t.len())], 8192, cx),
                    _ => {
                        let n = crate::src::ints(0, 66_000);
                        let s = gen::fill("s", n[ch.pick(n.len())] as usize);
                        match ch.pick(2) {
                            0 => check_text(&s, 8192, cx),
                            _ => check_binary(s.as_bytes(), 8192, cx),
                        }
                    }
                }
            },
        ),
        Run::new(
            "raw",
            "bytes without a length and bytes with a given one: write_slice, write_vec, write_sized of 0 to 300 bytes behind 0 to 2 others, every capacity; every 16-bit number through encode_multibyte_num",
            0,
            |ch, cx| {
                if ch.pick(2) == 1 {
                    let n = ch.pick(65536) as u16;
                    let b = imp(|| MqttWriter::encode_multibyte_num(n as u32));
                    if b != n.to_be_bytes() {
                        return Err(Fail::new(format!("{n} is encoded as {}", hexs(&b))));
                    }
                    state(9, &b, cx);
                    return Ok(());
                }
                let data: Vec<u8> = (0..ch.pick(301)).map(|i| (i * 7 + 3) as u8).collect();
                let before = ch.pick(3);
                let cap = [0usize, 1, 64, 1024][ch.pick(4)];
                let kind = ch.pick(4);
                let mut size = vec![];
                put_var(&mut size, data.len() as u32);
                cx.describe(|| format!("{} bytes behind {before}, capacity {cap}, kind {kind}", data.len()));
                let got = imp(|| -> Res<Vec<u8>> {
                    let mut w = MqttWriter::new(cap);
                    for i in 0..before {
                        w.write_u8(0xE0 + i as u8);
                    }
                    match kind {
                        0 => w.write_slice(&data),
                        1 => w.write_vec(data.clone()),
                        _ => w.write_sized(&data, &size)?,
                    }
                    w.write_u8(0x55);
                    Ok(w.into_vec())
                });
                let mut want: Vec<u8> = (0..before).map(|i| 0xE0 + i as u8).collect();
                if kind > 1 {
                    want.extend(&size);
                }
                want.extend(&data);
                want.push(0x55);
                if got.as_ref() != Ok(&want) {
                    return Err(Fail::new(format!("written {}, not {}", short(&got), hexs(&want))));
                }
                state(10, &want, cx);
                Ok(())
            },
        ),
        Run::new(
            "windows",
            "every kind of field at every position relative to up to four nested windows: each window ends with the field, one or three bytes behind it, or one byte inside of it; every read capacity 1, 2, 8192",
            0,
            |ch, cx| {
                let (b, kind) = field_of(ch.pick(17));
                let depth = ch.pick(5);
                let before = ch.pick(3);
                // slack of each window, outermost first; -1: the window cuts the field short
                let slack: Vec<i64> = (0..depth).map(|_| [0, 1, 3, -1][ch.pick(if b.is_empty() { 3 } else { 4 })]).collect();
                let cap = [8192usize, 1, 2][ch.pick(3)];
                cx.describe(|| format!("field {} behind {before} bytes, windows {slack:?} beyond it, capacity {cap}", hexs(&b)));
                let mut x = vec![0x11; before];
                x.extend(&b);
                x.extend([0x5A, 0x3C, 0x77, 0x01, 0x02]);
                let mut r = imp(|| ByteReader::new(BufReader::with_capacity(cap, &x[..])));
                // an inner window never reaches further than the outer one
                let mut ends: Vec<i64> = vec![];
                for s in &slack {
                    let e = (before + b.len()) as i64 + s;
                    imp(|| r.take(e as u32));
                    ends.push(ends.last().map_or(e, |l| e.min(*l)));
                }
                let ok = ends.last().is_none_or(|e| *e >= (before + b.len()) as i64);
                let ends_before = ends.last().is_some_and(|e| *e < before as i64);
                let head = imp(|| r.read_len(before as u32));
                if head.is_err() != ends_before {
                    return Err(Fail::new(format!("reading {before} bytes gives {head:?}")));
                }
                if ends_before {
                    return Ok(());
                }
                let got = imp(|| read_field(&mut r, kind));
                match (&got, ok) {
                    (Ok(g), true) if *g == want_field(&b, kind) => {}
                    (Err(_), false) => {
                        cx.count("cut short, refused");
                        state(8 + kind as u64, &x, cx);
                        return Ok(());
                    }
                    _ => return Err(Fail::new(format!("the field {} in windows {ends:?} (it ends at {}) reads as {}", hexs(&b), before + b.len(), short(&got)))),
                }
                // leave the windows one by one: has_more and the rest are those of the enclosing one
                let mut pos = (before + b.len()) as i64;
                for e in ends.iter().rev() {
                    if imp(|| r.has_more()) != (*e > pos) {
                        return Err(Fail::new(format!("has_more is wrong at byte {pos} of a window up to {e}: {}", hexs(&x))));
                    }
                    if *e > pos {
                        match imp(|| r.read_u8()) {
                            Ok(n) if n == x[pos as usize] => pos += 1,
                            o => return Err(Fail::new(format!("byte {pos} inside of a window up to {e} reads as {o:?}: {}", hexs(&x)))),
                        }
                    }
                    imp(|| r.reset_limit());
                }
                let rest = imp(|| r.read_len((x.len() as i64 - pos) as u32));
                if rest.as_deref() != Ok(&x[pos as usize..]) || imp(|| r.has_more()) {
                    return Err(Fail::new(format!("the rest after the windows is {rest:?}: {}", hexs(&x))));
                }
                state(64 + kind as u64, &x, cx);
                cx.count("fields in windows");
                Ok(())
            },
        ),
        #[cfg(feature = "proplists")]
        Run::new(
            "property-lists",
            format!("every list of up to {} different properties out of all 27, with up to two user properties and subscription identifiers at its end, written with write_properties and read back with read_properties", if quick { 3 } else { 4 }),
            0,
            move |ch, cx| property_list(ch, if quick { 3 } else { 4 }, cx),
        ),
        Run::new(
            "sequences", format!("every sequence of {} fields out of 14, written one after the other and read back, over reads of one byte or all", if quick { 4 } else { 5 }), 0, move |ch, cx| {
            let k = if quick { 4 } else { 5 };
            let fs: Vec<usize> = (0..k).map(|_| ch.pick(14)).collect();
            cx.describe(|| format!("fields {fs:?}"));
            let text = ["", "x", "é€", "a\0b"];
            let bin: [&[u8]; 3] = [&[], &[0xFF, 0x00], &[1; 130]];
            let r = imp(|| -> Res<Vec<u8>> {
                let mut w = MqttWriter::new(0);
                for (i, f) in fs.iter().enumerate() {
                    match f {
                        0 => w.write_u8(0xFE - i as u8),
                        1 => w.write_u16(0x0180 + i as u16),
                        2 => w.write_u32(0xFF00_7F80 - i as u32),
                        3 => w.write_variable_num(127 + i as u32)?,
                        4 => w.write_variable_num(2_097_151 + i as u32)?,
                        5..=8 => w.write_utf8_str(text[f - 5])?,
                        9..=11 => w.write_binary_ref(bin[f - 9])?,
                        12 => w.write_slice(&[0x10, 0x20]),
                        _ => w.write_vec(vec![0x30]),
                    }
                }
                Ok(w.into_vec())
            });
            let b = match r {
                Ok(b) => b,
                Err(e) => return Err(Fail::new(format!("fields {fs:?} are refused ({e})"))),
            };
            let mut src = Src::new(&b);
            let single = ch.pick(2) == 1;
            src.single = single;
            let mut r = imp(|| ByteReader::new(BufReader::with_capacity(if single { 2 } else { 8192 }, src)));
            for (i, f) in fs.iter().enumerate() {
                let ok = imp(|| match f {
                    0 => r.read_u8() == Ok(0xFE - i as u8),
                    1 => r.read_u16() == Ok(0x0180 + i as u16),
                    2 => r.read_u32() == Ok(0xFF00_7F80 - i as u32),
                    3 => r.read_variable_int() == Ok(127 + i as u32),
                    4 => r.read_variable_int() == Ok(2_097_151 + i as u32),
                    5..=8 => r.read_utf8_string().as_deref() == Ok(text[f - 5]),
                    9..=11 => r.read_binary().as_deref() == Ok(bin[f - 9]),
                    12 => r.read_len(2).as_deref() == Ok(&[0x10, 0x20]),
                    _ => r.read_len(1).as_deref() == Ok(&[0x30]),
                });
                if !ok {
                    return Err(Fail::new(format!("field {i} of {fs:?} is not read back from {}", hexs(&b))));
                }
            }
            if imp(|| r.has_more()) {
                return Err(Fail::new(format!("fields {fs:?} leave bytes behind: {}", hexs(&b))));
            }
            state(6, &b, cx);
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------- C23

/// what an endpoint of this version may send: decoded well-formed packets, which C04 checks one by one
fn vocabulary(version: u8) -> Vec<MqttPacket> {
    let mut v: Vec<MqttPacket> = vec![];
    let mut add = |f: wire::Frame| {
        if f.version != version {
            return;
        }
        if let Header::Ok { first, hdr, minimal, .. } = spec::header(&f.bytes) {
            if let Verdict::Accept(p) = spec::frame(first, &f.bytes[hdr..], version, minimal) {
                let p = spec::expected(&p, version);
                if !v.contains(&p) && matches!(class(&p, version), Class::Must) {
                    v.push(p)
                }
            }
        }
    };
    for f in wire::catalogue() {
        add(f)
    }
    for f in wire::all(0, wire::frame_same) {
        add(f)
    }
    v
}

/// One endpoint encodes the packets (each for the version in force), the other decodes them in a loop:
/// it starts with some version and adopts that of every CONNECT.
fn session(ps: &[(&MqttPacket, u8)], start: u8, src: &dyn Fn(&[u8]) -> (usize, usize), cx: &mut Cx) -> Out {
    cx.describe(|| {
        format!(
            "receiver starts with version {start}; {}",
            ps.iter().map(|(p, v)| format!("v{v} {}", short(p))).collect::<Vec<_>>().join("\n  ")
        )
    });
    let mut b = vec![];
    for (p, v) in ps {
        match imp(|| (*p).clone().encode(*v)) {
            Ok(x) => b.extend(x),
            Err(e) => return Err(Fail::new(format!("valid packet refused as version {v} ({e}): {}", short(p)))),
        }
    }
    let (cap, chunk) = src(&b);
    let mut s = Src::new(&b);
    s.chunk = chunk;
    let mut dec = decoder(cap, s);
    let mut version = start;
    trace::model_start(start as u64);
    let mut h = start as u64;
    for (i, (p, v)) in ps.iter().enumerate() {
        if !imp(|| dec.has_more()) {
            return Err(Fail::new(format!("the receiver saw {i} of {} packets: {}", ps.len(), hexs(&b))));
        }
        let g = imp(|| dec.decode_packet(version));
        match &g {
            Ok(q) => {
                if let MqttPacket::Connect(c) = q {
                    version = c.protocol_version;
                }
                // the expectation is computed only if the packet itself does not come back
                if q != *p && canon(q) != expected(p, *v) {
                    return Err(Fail::new(format!(
                        "packet {i} was sent as\n  {}\nand arrives as\n  {}\nstream {}",
                        short(p),
                        short(q),
                        hexs(&b)
                    )));
                }
            }
            Err(e) => {
                return Err(Fail::new(format!("packet {i} does not arrive ({e}): {}\nstream {}", short(p), hexs(&b))))
            }
        }
        h = mix(h ^ super::encode::kind_of(p) ^ (version as u64) << 8);
        trace::push(h);
    }
    if imp(|| dec.has_more()) {
        return Err(Fail::new(format!("after the last packet the receiver still sees data: {}", hexs(&b))));
    }
    cx.outcome(ps.iter().fold(start as u64, |a, (p, v)| mix(a ^ (*p as *const MqttPacket as u64) ^ (*v as u64) << 56)));
    cx.add("packets sent and received", ps.len() as u64);
    cx.sample(|| {
        format!("{} packets, {} bytes, versions {:?}", ps.len(), b.len(), ps.iter().map(|p| p.1).collect::<Vec<_>>())
    });
    Ok(())
}

/// a source that has nothing to say for a while
struct Pausing<'a> {
    data: &'a [u8],
    pos: usize,
    pause: usize,
}

impl std::io::Read for Pausing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.pause {
            std::thread::sleep(std::time::Duration::from_millis(2200));
        }
        let end = if self.pos < self.pause { self.pause } else { self.data.len() };
        let n = b.len().min(end - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const WHOLE: &dyn Fn(&[u8]) -> (usize, usize) = &|_| (8192, usize::MAX);

pub fn c23(quick: bool) -> Vec<Run> {
    let voc: Arc<Vec<Vec<MqttPacket>>> = Arc::new((3..=5).map(vocabulary).collect());
    let conn: Arc<Vec<(MqttPacket, u8)>> = Arc::new(
        voc.iter()
            .flatten()
            .filter_map(|p| match p {
                MqttPacket::Connect(c) => Some((p.clone(), c.protocol_version)),
                _ => None,
            })
            .collect(),
    );
    let sizes = format!("{} / {} / {}", voc[0].len(), voc[1].len(), voc[2].len());
    let depth = if quick { 3 } else { 4 };
    vec![
        Run::new(
            "sessions",
            format!("every session: CONNECT, then every sequence of {depth} packets out of the vocabulary of its version ({sizes} packets), the receiver starting with version 3, 4 or 5"),
            0,
            {
                let (voc, conn) = (voc.clone(), conn.clone());
                move |ch, cx| {
                    let (c, v) = &conn[ch.pick(conn.len())];
                    let start = [5u8, 4, 3][ch.pick(3)];
                    let w = &voc[*v as usize - 3];
                    let mut ps = vec![(c, *v)];
                    for _ in 0..depth {
                        ps.push((&w[ch.pick(w.len())], *v));
                    }
                    // a CONNECT among them may change the version
                    session(&fix(ps), start, WHOLE, cx)
                }
            },
        ),
        Run::new("reconnects", format!("every sequence CONNECT, packet, CONNECT, packet{}, each packet of the version its CONNECT announced", if quick { "" } else { ", CONNECT, packet" }), 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let start = [5u8, 4, 3][ch.pick(3)];
                let mut ps = vec![];
                for _ in 0..if quick { 2 } else { 3 } {
                    let (c, v) = &conn[ch.pick(conn.len())];
                    let w = &voc[*v as usize - 3];
                    ps.push((c, *v));
                    ps.push((&w[ch.pick(w.len())], *v));
                }
                session(&fix(ps), start, WHOLE, cx)
            }
        }),
        Run::new("twins", format!("{}: CONNECT, a packet of one of seven kinds whose texts are all the first, and one whose texts are all the second, twice", super::decode::TWINS), 0, {
            let conn = conn.clone();
            move |ch, cx| {
                let (t, u) = super::decode::twins(ch);
                let (a, b) = (super::decode::all_one_text(ch, &t), super::decode::all_one_text(ch, &u));
                let own = |f: &(Vec<u8>, u8)| match super::decode::verdict_of(&f.0, f.1) {
                    Some(Verdict::Accept(p) | Verdict::May(p, _)) => Some(p),
                    _ => None,
                };
                let (Some(p), Some(q)) = (own(&a), own(&b)) else { return Ok(()) };
                // in one session only if they are of one version
                if a.1 != b.1 || !matches!(class(&p, a.1), Class::Must) || !matches!(class(&q, b.1), Class::Must) {
                    return Ok(());
                }
                let c = &conn.iter().find(|c| c.1 == a.1).unwrap().0;
                session(&[(c, a.1), (&p, a.1), (&q, a.1), (&p, a.1), (&q, a.1)], 4, WHOLE, cx)
            }
        }),
        Run::new("values", "CONNECT, a PUBLISH, every packet value within the deviation bound, the same PUBLISH, for each version", if quick { 1 } else { 2 }, {
            let conn = conn.clone();
            move |ch, cx| {
                let (p, v) = gen::packet(ch, Mode::Dev { wide: true });
                if !matches!(class(&p, v), Class::Must) {
                    return Ok(());
                }
                let c = &conn.iter().find(|c| c.1 == v).unwrap().0;
                let mark = MqttPacket::Publish(PublishPacket {
                    dup: false,
                    qos: 2,
                    retain: true,
                    topic: "mark".into(),
                    message_id: Some(0x55AA),
                    payload: vec![0, 0x10, 0xFF],
                    properties: None,
                });
                let after = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { v };
                session(&[(c, v), (&mark, v), (&p, v), (&mark, after)], 4, WHOLE, cx)
            }
        }),
        Run::new("huge", format!("CONNECT, one packet out of: {}; then a PUBLISH", super::decode::HUGE), 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let Some((p, v)) = super::decode::huge_packet(ch, quick) else { return Ok(()) };
                if !matches!(class(&p, v), Class::Must) {
                    return Ok(());
                }
                let c = &conn.iter().find(|c| c.1 == v).unwrap().0;
                let mark = voc[v as usize - 3].iter().find(|p| matches!(p, MqttPacket::Publish(_))).unwrap();
                let after = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { v };
                session(&[(c, v), (mark, v), (&p, v), (mark, after)], 4, WHOLE, cx)
            }
        }),
        Run::new("source-values", "CONNECT, a PUBLISH, every packet value one field of which takes every number, text and length that the source of the crate names (one less, one more), the same PUBLISH", if quick { 0 } else { 1 }, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let Some((p, v)) = gen::source_packet(ch, false) else { return Ok(()) };
                if !matches!(class(&p, v), Class::Must) {
                    return Ok(());
                }
                let c = &conn.iter().find(|c| c.1 == v).unwrap().0;
                let mark = voc[v as usize - 3].iter().find(|p| matches!(p, MqttPacket::Publish(_))).unwrap();
                let after = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { v };
                session(&[(c, v), (mark, v), (&p, v), (mark, after)], 4, WHOLE, cx)
            }
        }),
        Run::new("transports", "every session of CONNECT and two packets, reads of 1, 2, 5 or 17 bytes, buffer capacities 1, 4 and 8192", 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let (c, v) = &conn[ch.pick(conn.len())];
                let w = &voc[*v as usize - 3];
                let ps = vec![(c, *v), (&w[ch.pick(w.len())], *v), (&w[ch.pick(w.len())], *v)];
                let (cap, chunk) = ([1usize, 4, 8192][ch.pick(3)], [1usize, 2, 5, 17][ch.pick(4)]);
                session(&fix(ps), 4, &|_| (cap, chunk), cx)
            }
        }),
        Run::new("idle", "CONNECT with a keep alive of one second, PUBLISH that expires after one second (version 5), a pause of 2.2 seconds before or inside the packet that follows, for each version and four packets", 0, |ch, cx| {
            let v = 3 + ch.pick(3) as u8;
            let next: &[u8] = [&[0xC0, 0][..], &[0x30, 5, 0, 1, b't', 0, 1], &[0x40, 2, 0, 1], &[0xE0, 0]][ch.pick(4)];
            let at = ch.pick(2);
            let mut b = match v {
                3 => vec![0x10, 15, 0, 6, b'M', b'Q', b'I', b's', b'd', b'p', 3, 2, 0, 1, 0, 1, b'c'],
                4 => vec![0x10, 13, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 1, 0, 1, b'c'],
                _ => vec![0x10, 19, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 1, 5, 0x11, 0, 0, 0, 1, 0, 1, b'c'],
            };
            match v {
                5 => b.extend([0x30, 10, 0, 1, b't', 5, 2, 0, 0, 0, 1, b'x']),
                _ => b.extend([0x30, 4, 0, 1, b't', b'x']),
            }
            let pause = b.len() + at;
            b.extend(next);
            let all = |r: &mut dyn std::io::Read| -> Vec<Res<MqttPacket>> {
                let mut d = PacketDecoder::from_stream(r);
                let mut out = vec![];
                let mut version = v;
                while out.len() < 4 && imp(|| d.has_more()) {
                    let g = imp(|| d.decode_packet(version));
                    if let Ok(MqttPacket::Connect(c)) = &g {
                        version = c.protocol_version;
                    }
                    out.push(g);
                }
                out
            };
            cx.describe(|| format!("{} with a pause after {pause} bytes", hexs(&b)));
            trace::model_start(v as u64);
            trace::push(mix(b.len() as u64) ^ at as u64);
            let want = all(&mut &b[..]);
            let got = all(&mut Pausing { data: &b, pos: 0, pause });
            if want.len() != 3 || want.iter().any(|x| x.is_err()) || want != got {
                return Err(Fail::new(format!("{} gives\n  {}\nand with a pause of 2.2 s after {pause} bytes\n  {}", hexs(&b), short(&want), short(&got))));
            }
            cx.outcome(mix(v as u64) ^ mix(pause as u64 ^ (next[0] as u64) << 32));
            cx.count("sessions with a pause");
            Ok(())
        }),
        Run::new("long-sessions", "CONNECT and 2000 packets: the vocabulary in a circle, from every starting point, in steps of 1 to 8", 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let (c, v) = &conn[ch.pick(conn.len())];
                let w: Vec<&MqttPacket> = voc[*v as usize - 3].iter().filter(|p| !matches!(p, MqttPacket::Connect(_))).collect();
                let (from, step) = (ch.pick(w.len()), 1 + ch.pick(8));
                let mut ps = vec![(c, *v)];
                for i in 0..if quick { 500 } else { 2000 } {
                    ps.push((w[(from + i * step) % w.len()], *v));
                }
                session(&ps, 4, WHOLE, cx)
            }
        }),
        Run::new("endless-sessions", format!("CONNECT, 70000 times the same packet{}, then every packet of the vocabulary of that version once", if quick { " (of fewer than 40 bytes)" } else { "" }), 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let (v, pick) = {
                    let k = ch.pick(3);
                    (k as u8 + 3, ch.pick(voc[k].len()))
                };
                let w = &voc[v as usize - 3];
                let p = &w[pick];
                if matches!(p, MqttPacket::Connect(_)) {
                    return Ok(());
                }
                cx.describe(|| format!("version {v}: 70000 times {}", short(p)));
                let enc = |p: &MqttPacket| imp(|| p.clone().encode(v)).map_err(|e| Fail::new(format!("valid packet refused ({e}): {}", short(p))));
                let one = enc(p)?;
                if quick && one.len() >= 40 {
                    return Ok(());
                }
                let mut head = enc(&conn.iter().find(|c| c.1 == v).unwrap().0)?;
                head.extend_from_slice(&one);
                let mut tail = vec![];
                for q in w.iter().filter(|q| !matches!(q, MqttPacket::Connect(_))) {
                    tail.extend(enc(q)?);
                }
                let n = 70_000;
                let src = Repeated { head: &head, unit: &one, times: n - 1, tail: &tail, pos: 0 };
                deliver(src, v, p, n, w, cx)
            }
        }),
        Run::new("beyond-4-gigabytes", "CONNECT, PUBLISH of 1 or 64 megabytes until more than 4 GiB have passed, then every packet of the vocabulary once, versions 4 and 5", 0, {
            let (voc, conn) = (voc.clone(), conn.clone());
            move |ch, cx| {
                let v = [4u8, 5][ch.pick(2)];
                let size = [1usize << 20, 64 << 20][ch.pick(2)];
                let w = &voc[v as usize - 3];
                let p = MqttPacket::Publish(PublishPacket {
                    dup: false,
                    qos: 1,
                    retain: false,
                    topic: "big".into(),
                    message_id: Some(7),
                    payload: (0..size).map(|i| (i % 251) as u8).collect(),
                    properties: None,
                });
                cx.describe(|| format!("version {v}, PUBLISH with {size} bytes of payload"));
                let enc = |p: &MqttPacket| imp(|| p.clone().encode(v)).map_err(|e| Fail::new(format!("valid packet refused ({e}): {}", short(p))));
                let one = enc(&p)?;
                let n = (1usize << 32) / size + 2;
                let mut head = enc(&conn.iter().find(|c| c.1 == v).unwrap().0)?;
                head.extend_from_slice(&one);
                let mut tail = vec![];
                for q in w.iter().filter(|q| !matches!(q, MqttPacket::Connect(_))) {
                    tail.extend(enc(q)?);
                }
                let src = Repeated { head: &head, unit: &one, times: n - 1, tail: &tail, pos: 0 };
                deliver(src, v, &p, n, w, cx)
            }
        }),
        Run::new("by-type", "every packet value within the deviation bound: the bytes of a session are the same whether encoded through the packet enum or the packet type", 1, |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Same);
            let a = imp(|| p.clone().encode(v));
            let b = imp(|| encode_by_type(&p, v));
            let lv = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { v };
            cx.describe(|| format!("version {v} {}", short(&p)));
            if !same_result(&a, &b, lv) {
                return Err(Fail::new(format!("version {v}: {} through the enum, {} through the type: {}", short(&a), short(&b), short(&p))));
            }
            cx.outcome(mix(a.map(|b| b.len() as u64).unwrap_or(1)));
            Ok(())
        }),
    ]
}

/// head, unit many times, tail
struct Repeated<'a> {
    head: &'a [u8],
    unit: &'a [u8],
    times: usize,
    tail: &'a [u8],
    pos: usize,
}

impl std::io::Read for Repeated<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = 0;
        while n < buf.len() {
            let (h, m) = (self.head.len(), self.unit.len() * self.times);
            let from = if self.pos < h {
                &self.head[self.pos..]
            } else if self.pos < h + m {
                &self.unit[(self.pos - h) % self.unit.len()..]
            } else {
                &self.tail[self.pos - h - m..]
            };
            let k = from.len().min(buf.len() - n);
            if k == 0 {
                break;
            }
            buf[n..n + k].copy_from_slice(&from[..k]);
            n += k;
            self.pos += k;
        }
        Ok(n)
    }
}

/// a CONNECT, `n` times `p` and every packet of `w` but CONNECT arrive
fn deliver(src: Repeated, v: u8, p: &MqttPacket, n: usize, w: &[MqttPacket], cx: &mut Cx) -> Out {
    let mut dec = decoder(8192, src);
    let want = expected(p, v);
    let rest: Vec<&MqttPacket> = w.iter().filter(|q| !matches!(q, MqttPacket::Connect(_))).collect();
    trace::model_start(0x454E_444C);
    for i in 0..1 + n + rest.len() {
        if !imp(|| dec.has_more()) {
            return Err(Fail::new(format!("the receiver saw {i} of {} packets", 1 + n + rest.len())));
        }
        let g = imp(|| dec.decode_packet(v));
        let good = match &g {
            Err(_) => false,
            Ok(g) if i == 0 => matches!(g, MqttPacket::Connect(_)),
            Ok(g) if i <= n => g == p || canon(g) == want,
            Ok(g) => g == rest[i - n - 1] || canon(g) == expected(rest[i - n - 1], v),
        };
        if !good {
            return Err(Fail::new(format!("packet {i} of the session arrives as {}", short(&g))));
        }
        if i % 1024 == 0 || i > n {
            trace::push(mix(super::encode::kind_of(p) ^ (i as u64) << 8 ^ (v as u64) << 40));
        }
    }
    if imp(|| dec.has_more()) {
        return Err(Fail::new("after the last packet the receiver still sees data"));
    }
    cx.outcome(mix(super::encode::kind_of(p) ^ (n as u64) << 8 ^ (v as u64) << 40));
    cx.add("packets sent and received", (1 + n + rest.len()) as u64);
    Ok(())
}

/// packets after a CONNECT of another version are sent for that version
fn fix<'a>(mut ps: Vec<(&'a MqttPacket, u8)>) -> Vec<(&'a MqttPacket, u8)> {
    let mut v = 0;
    for (p, w) in ps.iter_mut() {
        if let MqttPacket::Connect(c) = p {
            v = c.protocol_version;
        }
        if v != 0 {
            *w = v
        }
    }
    ps
}
