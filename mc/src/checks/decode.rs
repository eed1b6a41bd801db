//! Bytes into packet values: C04 C05 C13 C14 C16.
use crate::explore::*;
use crate::gen::Slots;
use crate::obs::*;
use crate::spec::{self, *};
use crate::trace::{self, mix};
use crate::wire::{self, Frame, W};
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::*;

/// what the specification says about the first packet of these bytes; None if it is incomplete
pub fn verdict_of(b: &[u8], version: u8) -> Option<Verdict> {
    match spec::header(b) {
        Header::Incomplete => None,
        Header::Unframable => Some(Verdict::Reject("variable byte integer longer than four bytes")),
        Header::Ok { first, hdr, len, minimal } => {
            if hdr + len > b.len() {
                return None;
            }
            Some(spec::frame(first, &b[hdr..hdr + len], version, minimal))
        }
    }
}

/// decodes the first packet of the bytes on a fresh decoder and compares with the specification
pub fn compare(part: Part, b: &[u8], version: u8, cx: &mut Cx, known: bool) -> Out {
    cx.describe(|| format!("version {version}, bytes {}", hexs(b)));
    let Some(v) = verdict_of(b, version) else {
        cx.count("incomplete (C07)");
        return Ok(());
    };
    match (&v, part) {
        (Verdict::Reject(_), Part::Accepting) => return Ok(()),
        (Verdict::Accept(_) | Verdict::May(..) | Verdict::Known(_), Part::Rejecting) => return Ok(()),
        (Verdict::Any(_), _) => return Ok(()),
        _ => {}
    }
    let got = first(b, version);
    match judge(part, &v, &got) {
        Judged::Silent => cx.count("no claim"),
        Judged::Ok => {
            cx.count(match v {
                Verdict::Accept(_) => "well-formed, same value",
                Verdict::May(..) => "tolerated irregularity, same value or refused",
                _ => "malformed, refused",
            });
            cx.outcome(match &v {
                Verdict::Reject(r) => {
                    mix(r.len() as u64 ^ (r.as_ptr() as u64) << 8) ^ b[0] as u64 ^ (version as u64) << 32
                }
                _ => got_hash(&got) ^ version as u64,
            });
            cx.sample(|| {
                let g = match &got {
                    Ok(p) => short(p),
                    Err(e) => format!("error: {e}"),
                };
                let g: String = g.chars().take(160).collect();
                let h: String = hexs(b).chars().take(160).collect();
                format!("v{version} {h} -> {g}")
            });
        }
        Judged::Known(k) => {
            if known {
                return Err(Fail::known(k, format!("version {version} {}", hexs(b))));
            }
            cx.count("not representable in the data model (C04)");
        }
        Judged::Bad(w) => return Err(Fail::new(format!("version {version}, bytes {}: {w}", hexs(b)))),
    }
    Ok(())
}

/// what may follow a packet in the stream
const AFTER: [&[u8]; 3] =
    [&[], &[0; 24], &[0x26, 0x00, 0x01, b'k', 0x00, 0x01, b'v', 0xC0, 0x00, 0x1F, 0x00, 0x02, b'h', b'i']];

pub const FIRST: [u8; 31] = [
    0x10, 0x20, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x36, 0x3F, 0x40, 0x50, 0x60,
    0x62, 0x70, 0x80, 0x82, 0x90, 0xA0, 0xA2, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0,
];

fn universe(part: Part, quick: bool, known: bool) -> Vec<Run> {
    let cat = std::sync::Arc::new(wire::catalogue());
    let cat2 = cat.clone();
    let cat3 = cat.clone();
    let mut v = vec![
        Run::new(
            "frames",
            "every frame of the deviating writer: each field, length, flag, property and list of each packet type and \
             version may deviate from the well-formed minimal or full packet; alone and followed by further bytes",
            if quick { 2 } else { 3 },
            move |ch, cx| {
                let f = wire::frame(ch, true, false);
                let mut b = f.bytes;
                b.extend_from_slice(AFTER[ch.pick(3)]);
                compare(part, &b, f.version, cx, known)
            },
        ),
        Run::new(
            "short",
            if quick {
                "every packet with one of 31 first bytes and at most two body bytes, versions 3, 4, 5"
            } else {
                "every packet with any first byte and at most two body bytes, with one of 31 first bytes three, versions 3, 4, 5"
            },
            0,
            move |ch, cx| {
                let v = [5u8, 4, 3][ch.pick(3)];
                let n = ch.pick(if quick { 3 } else { 4 });
                let f = if quick || n == 3 { FIRST[ch.pick(31)] } else { ch.pick(256) as u8 };
                let mut b = vec![f, n as u8];
                for _ in 0..n {
                    b.push(ch.pick(256) as u8);
                }
                compare(part, &b, v, cx, known)
            },
        ),
        Run::new("mutants", "every catalogue packet with any one byte replaced by any value", 0, move |ch, cx| {
            let f = &cat[ch.pick(cat.len())];
            let mut b = f.bytes.clone();
            let i = ch.pick(b.len());
            b[i] = ch.pick(256) as u8;
            compare(part, &b, f.version, cx, known)
        }),
        Run::new("removed-bytes", "every catalogue packet with any run of body bytes removed or doubled, length adjusted", 0, move |ch, cx| {
            let f = &cat2[ch.pick(cat2.len())];
            let Header::Ok { first, hdr, .. } = spec::header(&f.bytes) else { return Ok(()) };
            let body = &f.bytes[hdr..];
            let i = ch.pick(body.len() + 1);
            let n = ch.pick(body.len() - i + 1);
            let mut x = body[..i].to_vec();
            if ch.pick(2) == 1 {
                x.extend_from_slice(&body[i..i + n]);
                x.extend_from_slice(&body[i..]);
            } else {
                x.extend_from_slice(&body[i + n..]);
            }
            let mut b = vec![first];
            put_var(&mut b, x.len() as u32);
            b.extend(x);
            compare(part, &b, f.version, cx, known)
        }),
        Run::new(
            "other-versions",
            "every catalogue packet of one version decoded as each of the other versions, and single-field deviations of it",
            1,
            move |ch, cx| {
                let f = wire::frame(ch, false, false);
                let v = [3u8, 4, 5][ch.pick(3)];
                compare(part, &f.bytes, v, cx, known)
            },
        ),
    ];
    v.push(Run::new(
        "equal-values",
        "every frame of the deviating writer with equal texts, names and numbers in all fields",
        2,
        move |ch, cx| {
            let f = wire::frame_same(ch);
            compare(part, &f.bytes, f.version, cx, known)
        },
    ));
    v.push(Run::new(
        "lists",
        "every list (subscriptions, topics, return codes, user properties of one name or of many, subscription identifiers) with every number of items from 0 to 300, one item malformed or none",
        0,
        move |ch, cx| {
            let (b, v) = list_frame(ch, if quick { 300 } else { 1200 });
            compare(part, &b, v, cx, known)
        },
    ));
    v.push(Run::new(
        "small-lists",
        "every short list of topics, of codes and of subscriptions with all options, versions 3, 4, 5",
        0,
        move |ch, cx| {
            let (b, v) = small_list_frame(ch, if quick { 5 } else { 6 });
            compare(part, &b, v, cx, known)
        },
    ));
    v.push(Run::new(
        "similar-texts",
        "three user properties, three topics, the five texts of CONNECT, the texts of PUBLISH: all selections of 26 (CONNECT: 6) texts that \
         differ in case, blanks, composition, width, a prefix or a NUL only",
        0,
        move |ch, cx| {
            let (b, v) = similar_frame(ch);
            compare(part, &b, v, cx, known)
        },
    ));
    v.push(Run::new(
        "twins",
        format!("{TWINS}, in the user properties, topics and texts of one packet"),
        0,
        move |ch, cx| {
            let (b, v) = twin_frame(ch);
            compare(part, &b, v, cx, known)
        },
    ));
    v.push(Run::new("shapes", SHAPES, 0, move |ch, cx| {
        let (b, v) = shaped_frame(ch);
        compare(part, &b, v, cx, known)
    }));
    v.push(Run::new(
        "subsets-deviating",
        "every subset of the legal properties of every version 5 packet and every combination of CONNECT and PUBLISH flags, each with one \
         deviation (field value, length, extra, missing or moved property, section and packet length) of the deviating writer",
        if quick { 1 } else { 2 },
        move |ch, cx| {
            let f = wire::frame(ch, false, true);
            compare(part, &f.bytes, f.version, cx, known)
        },
    ));
    v.push(Run::new("repeats", "every sequence of up to five user properties (three names, equal, different and empty values) and subscription identifiers in every section", 0, move |ch, cx| {
        let x = repeats(ch, if quick { 4 } else { 5 });
        compare(part, &x.bytes, 5, cx, known)
    }));
    v.push(source_values(part, if quick { 1 } else { 2 }, false, known));
    if !quick {
        v.push(source_values(part, 0, true, known));
    }
    v.push(Run::new("huge", HUGE, 0, move |ch, cx| {
        let (b, v) = huge_frame(ch, false);
        compare(part, &b, v, cx, known)
    }));
    v.push(Run::new("two-items", "every pair of subscription option bytes and of return codes", 0, move |ch, cx| {
        let k = ch.pick(5);
        let (x, y) = (ch.pick(256) as u8, ch.pick(256) as u8);
        let (b, v): (Vec<u8>, u8) = match k {
            0 => (vec![0x82, 0x0B, 0, 1, 0, 0, 1, b'a', x, 0, 1, b'b', y], 5),
            1 => (vec![0x82, 0x0A, 0, 1, 0, 1, b'a', x, 0, 1, b'b', y], 4),
            2 => (vec![0x90, 5, 0, 1, 0, x, y], 5),
            3 => (vec![0x90, 4, 0, 1, x, y], 4),
            _ => (vec![0xB0, 5, 0, 1, 0, x, y], 5),
        };
        compare(part, &b, v, cx, known)
    }));
    if !quick {
        v.push(Run::new(
            "double-mutants",
            "every catalogue packet with any two bytes replaced by edge values",
            0,
            move |ch, cx| {
                const E: [u8; 10] = [0, 1, 2, 0x26, 0x7F, 0x80, 0x81, 0xC3, 0xFE, 0xFF];
                let f = &cat3[ch.pick(cat3.len())];
                let mut b = f.bytes.clone();
                let i = ch.pick(b.len());
                let j = ch.pick(b.len());
                b[i] = E[ch.pick(10)];
                b[j] = E[ch.pick(10)];
                compare(part, &b, f.version, cx, known)
            },
        ));
    }
    v
}

pub fn source_values(part: Part, budget: u32, two: bool, known: bool) -> Run {
    Run::new(
        if two { "source-pairs" } else { "source-values" },
        if two {
            "every pair of fields of every frame of the deviating writer, both with every number, text and length that the source of the crate names"
        } else {
            "every field of every frame of the deviating writer with every number, text and length that the source of the crate names (one less, one more), the rest within the deviation bound"
        },
        budget,
        move |ch, cx| {
            let Some(f) = wire::source_frame(ch, two) else { return Ok(()) };
            compare(part, &f.bytes, f.version, cx, known)
        },
    )
}

pub fn c04(quick: bool) -> Vec<Run> {
    let mut v = universe(Part::Accepting, quick, true);
    v.push(Run::new(
        "subsets",
        "every subset of the legal properties of every version 5 packet; every CONNECT flag byte",
        0,
        |ch, cx| {
            let kind = 1 + ch.pick(15);
            let f = if kind == 1 { connect_free(ch) } else { wire::frame_of(ch, false, true, kind, true, 5) };
            compare(Part::Accepting, &f.bytes, f.version, cx, true)
        },
    ));
    v.push(big(Part::Accepting));
    v.push(utf8_places(Part::Accepting, quick, true));
    v
}

pub fn c05(quick: bool) -> Vec<Run> {
    let mut v = universe(Part::Rejecting, quick, false);
    v.push(Run::new(
        "connect-flags",
        "every CONNECT flag byte, levels 3, 4, 5, content as the flags say",
        0,
        |ch, cx| {
            let f = connect_free(ch);
            compare(Part::Rejecting, &f.bytes, f.version, cx, false)
        },
    ));
    v.push(Run::new("utf8", "every one- and two-byte string, and every three- and four-byte string built from the class boundary bytes, in a text field", 0, |ch, cx| {
        let s = utf8_string(ch);
        let (b, v) = text_carrier(ch, &s);
        compare(Part::Rejecting, &b, v, cx, false)
    }));
    v.push(utf8_places(Part::Rejecting, quick, false));
    v
}

/// a packet with a list of up to `max` items
pub fn list_frame(ch: &mut Ch, max: usize) -> (Vec<u8>, u8) {
    let kind = ch.pick(13);
    let n = ch.pick(max + 1);
    list_of(ch, kind, n)
}

fn list_of(ch: &mut Ch, kind: usize, n: usize) -> (Vec<u8>, u8) {
    // which item is bad, if any
    let bad = match ch.pick(5) {
        0 => None,
        1 => Some(0),
        2 => Some(n / 2),
        3 => n.checked_sub(2),
        _ => n.checked_sub(1),
    };
    let mut items = vec![];
    for i in 0..n {
        let odd = bad == Some(i);
        let name = format!("n{i}");
        let text = |items: &mut Vec<u8>, s: &str, odd: bool| {
            items.extend([0, s.len() as u8]);
            items.extend(s.bytes());
            if odd {
                let l = items.len();
                items[l - 1] = 0xFF;
            }
        };
        match kind {
            0 | 1 => {
                text(&mut items, &name, false);
                let o = [1u8, 0, 2, 1][i % 4] | if kind == 0 { [0u8, 0x04, 0x18, 0x20, 0x2C][i % 5] & 0x2C } else { 0 };
                items.push(if odd { 3 } else { o });
            }
            2 | 3 => text(&mut items, &name, odd),
            4 => items.push(if odd { 0x7F } else { suback_codes()[i * 5 % suback_codes().len()].0 }),
            5 => items.push(if odd { 0x03 } else { [0u8, 0x80, 2, 1][i % 4] }),
            6 => items.push(if odd { 0x01 } else { unsuback_codes()[i * 3 % unsuback_codes().len()].0 }),
            7 | 8 => {
                items.push(if odd { 0x7F } else { 0x26 });
                let k = format!("n{}", i % 3);
                items.extend([0, k.len() as u8]);
                items.extend(k.bytes());
                let v = format!("{}", i * 7 % 301);
                items.extend([0, v.len() as u8]);
                items.extend(v.bytes());
            }
            9 => {
                items.push(0x26);
                text(&mut items, &name, false);
                items.push(0);
                items.push(odd as u8);
                if odd {
                    items.push(0xC0);
                }
            }
            10 => {
                items.push(0x0B);
                put_var(&mut items, if odd { 0 } else { 1 + (i as u32 * 977) % 20_011 });
            }
            11 => {
                // alternating with user properties
                if i % 2 == 0 {
                    items.push(0x0B);
                    put_var(&mut items, 1 + i as u32);
                } else {
                    items.extend([0x26, 0, 0, 0, 1, if odd { 0xFF } else { b'v' }]);
                }
            }
            _ => items.push(if odd { 0xFF } else { i as u8 }),
        }
    }
    let mut b;
    let (first, version) = match kind {
        0 => (0x82, 5),
        1 => (0x82, 4),
        2 => (0xA2, 5),
        3 => (0xA2, 3),
        4 => (0x90, 5),
        5 => (0x90, 4),
        6 => (0xB0, 5),
        7 => (0x40, 5),
        8 => (0x82, 5),
        9 => (0xE0, 5),
        _ => (0x30, 5),
    };
    match kind {
        7 => {
            b = vec![0, 1, 0];
            put_var(&mut b, items.len() as u32);
            b.extend(items);
        }
        8 => {
            b = vec![0, 1];
            put_var(&mut b, items.len() as u32);
            b.extend(items);
            b.extend([0, 1, b'a', 1]);
        }
        9 => {
            b = vec![4];
            put_var(&mut b, items.len() as u32);
            b.extend(items);
        }
        10 | 11 => {
            b = vec![0, 1, b't'];
            put_var(&mut b, items.len() as u32);
            b.extend(items);
            b.extend(b"payload");
        }
        12 => {
            b = vec![0, 1, b't', 0];
            b.extend(items);
        }
        _ => {
            b = vec![0, 1];
            if version == 5 {
                b.push(0)
            }
            b.extend(items);
        }
    }
    (finish(first, &b), version)
}

pub const HUGE: &str = "lists of 1000 to 100000 items (all intact, or the first, middle, last but one or last one malformed), property sections of up to 5 MB, \
                        topics and user properties of 65535 bytes 40 times, payloads of 2^12 to 2^24 bytes and one less and more; lists, \
                        sections and packets of every size that the source of the crate names";

/// a packet far larger than any buffer: a limit on the number of items or bytes shows here
/// (`few`: fewer sizes)
pub fn huge_frame(ch: &mut Ch, few: bool) -> (Vec<u8>, u8) {
    const N: [usize; 17] = [
        1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 16_383, 16_384, 16_385, 32_767, 32_768, 65_535, 65_536,
        65_537, 100_000,
    ];
    let long = |i: usize| -> Vec<u8> {
        let mut t = vec![0xFF, 0xFF];
        t.extend((0..65_535).map(|k| b'a' + ((k + i) % 23) as u8));
        t
    };
    match ch.pick(4) {
        0 => {
            let kind = ch.pick(13);
            // and as many as any number in the source says
            let lit = crate::src::ints(301, 300_000);
            let m = if few { 3 } else { 17 };
            let n = match ch.pick(m + lit.len()) {
                i if i >= m => lit[i - m] as usize,
                i if few => [1025, 16_385, 65_537][i],
                i => N[i],
            };
            list_of(ch, kind, n)
        }
        1 => {
            let c = &CARRIERS[ch.pick(14)];
            let mut p = vec![];
            let menu = if few { 4 } else { 9 };
            match ch.pick(menu) {
                0 => (0..40).for_each(|i| {
                    p.extend([0x26, 0, 1, b'k']);
                    p.extend(long(i));
                }),
                1 => (0..40).for_each(|i| {
                    p.push(0x26);
                    p.extend(long(i));
                    p.extend([0, 1, b'v']);
                }),
                k if k == menu - 1 => {
                    // a section of a length that the source names, of one property or of many
                    let lit = crate::src::ints(300, 1 << 22);
                    let n = if lit.is_empty() { 300 } else { lit[ch.pick(lit.len())] as usize };
                    let step = [60_000, 64][ch.pick(2)];
                    while p.len() < n {
                        let left = n - p.len();
                        // no rest shorter than a property
                        let l = if left <= step { left } else { step.min(left - 6) };
                        p.extend([0x26, 0, 1, b'k']);
                        text(&mut p, &crate::gen::fill("v", l.max(6) - 6));
                    }
                }
                k => (0..[65_537, 1000, 1025, 4097, 16_385, 100_000][k - 2]).for_each(|i: usize| {
                    p.push(0x26);
                    text(&mut p, &format!("n{}", i % 5000));
                    text(&mut p, &format!("{i}"));
                }),
            }
            (carry(c, p.len() as u32, &p), 5)
        }
        2 => {
            let v = [4u8, 5][ch.pick(2)];
            let lit = crate::src::ints(256, 1 << 26);
            let m = if few { 3 } else { 13 };
            let mut b = b"\0\x03a/b\0\x09".to_vec();
            if v == 5 {
                b.push(0);
            }
            let n = match ch.pick(m + lit.len()) {
                i if i < m => (1usize << if few { 12 + 5 * i } else { 12 + i }) - 1 + ch.pick(3),
                // the payload, the packet or what is behind its first two bytes is that long
                i => (lit[i - m] as usize).saturating_sub([0, b.len(), b.len() + 5][ch.pick(3)]),
            };
            b.extend((0..n).map(|i| (i % 251) as u8));
            (finish(0x32, &b), v)
        }
        _ => {
            let k = ch.pick(4);
            let mut b = vec![0, 9];
            if k % 2 == 1 {
                b.push(0);
            }
            for i in 0..40 {
                b.extend(long(i));
                if k < 2 {
                    b.push((i % 3) as u8);
                }
            }
            (finish(if k < 2 { 0x82 } else { 0xA2 }, &b), 4 + (k % 2) as u8)
        }
    }
}

/// the packet value the reference model reads in a huge frame, if it is one
pub fn huge_packet(ch: &mut Ch, few: bool) -> Option<(MqttPacket, u8)> {
    let (b, v) = huge_frame(ch, few);
    match verdict_of(&b, v) {
        Some(Verdict::Accept(p) | Verdict::May(p, _)) => Some((p, v)),
        _ => None,
    }
}

/// every short list of topics, codes or subscriptions; also empty lists and unlisted codes
pub fn small_list_frame(ch: &mut Ch, max: usize) -> (Vec<u8>, u8) {
    let kind = ch.pick(5);
    let v = [3u8, 4, 5][ch.pick(3)];
    let mut b = vec![0x12, 0x34];
    if v == 5 {
        match ch.pick(2) {
            0 => b.push(0),
            _ => b.extend(b"\x07\x26\0\x01k\0\x01v"),
        }
    }
    let topics: [&[u8]; 6] = [b"\0\x01a", b"\0\x01b", b"\0\x03a/#", b"\0\0", b"\0\x02\xC3\xA9", b"\0\x01 "];
    let first = match kind {
        // one or two subscriptions with any options
        0 => {
            for _ in 0..1 + ch.pick(2) {
                b.extend(topics[ch.pick(2)]);
                b.push(ch.pick(64) as u8);
            }
            0x82
        }
        // up to `max` subscriptions with some options
        1 => {
            for _ in 0..ch.pick(max) {
                b.extend(topics[ch.pick(4)]);
                b.push([0u8, 1, 2, 0x2E, 3][ch.pick(if v == 5 { 5 } else { 3 })]);
            }
            0x82
        }
        2 => {
            for _ in 0..ch.pick(max + 1) {
                b.extend(topics[ch.pick(6)]);
            }
            0xA2
        }
        3 => {
            let l: Vec<u8> = if v == 5 {
                suback_codes().iter().map(|c| c.0).chain([3, 0xFF]).collect()
            } else {
                vec![0, 1, 2, 0x80, 3]
            };
            for _ in 0..ch.pick(max) + (v < 5) as usize {
                b.push(l[ch.pick(l.len())]);
            }
            0x90
        }
        _ => {
            let l: Vec<u8> = unsuback_codes().iter().map(|c| c.0).chain([1, 0xFF]).collect();
            for _ in 0..ch.pick(max) {
                b.push(l[ch.pick(l.len())]);
            }
            0xB0
        }
    };
    (finish(first, &b), v)
}

/// byte strings around every boundary of UTF-8
fn utf8_string(ch: &mut Ch) -> Vec<u8> {
    const E: [u8; 27] = [
        0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE,
        0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF,
    ];
    let n = 1 + ch.pick(4);
    (0..n).map(|_| if n <= 2 { ch.pick(256) as u8 } else { E[ch.pick(E.len())] }).collect()
}

/// A valid beginning of any length, then a few bytes around a boundary of UTF-8, then a valid end.
pub fn long_bytes(ch: &mut Ch, few: bool) -> Vec<u8> {
    const E: [u8; 27] = [
        0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE,
        0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF,
    ];
    const T: [&[u8]; 14] = [
        &[],
        &[0xE2, 0x82, 0xAC],
        &[0xED, 0x9F, 0xBF],
        &[0xED, 0xA0, 0x80],
        &[0xEE, 0x80, 0x80],
        &[0xEF, 0xBF, 0xBF],
        &[0xEF, 0xBB, 0xBF],
        &[0xE0, 0x9F, 0xBF],
        &[0xF0, 0x9F, 0x98],
        &[0xF0, 0x9F, 0x98, 0x80],
        &[0xF0, 0x8F, 0xBF, 0xBF],
        &[0xF4, 0x8F, 0xBF, 0xBF],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xE2, 0x82, 0x41],
    ];
    let fill = ["a", "é", "€", "😀"][ch.pick(4)];
    const L: [usize; 16] = [4096, 1, 3, 8, 15, 16, 31, 32, 64, 127, 128, 255, 256, 300, 1000, 8192];
    let n = if few { [64, 300, 7][ch.pick(3)] } else { L[ch.pick(16)] };
    let mut s = fill.as_bytes().repeat(n.div_ceil(fill.len()));
    // an offset against every word boundary
    if ch.pick(2) == 1 {
        s.insert(0, b'b');
    }
    match ch.pick(3) {
        0 => s.push(E[ch.pick(27)]),
        1 => s.extend([E[ch.pick(27)], E[ch.pick(27)]]),
        _ => s.extend(T[ch.pick(14)]),
    }
    s.extend(&[b'z'; 70][..[0, 1, 70][ch.pick(3)]]);
    s
}

/// every place of a text: fields of all versions, text properties and user properties of all 14 sections
pub fn text_place(ch: &mut Ch, s: &[u8]) -> (Vec<u8>, u8) {
    let lp = |s: &[u8]| {
        let mut v = vec![(s.len() >> 8) as u8, s.len() as u8];
        v.extend_from_slice(s);
        v
    };
    match ch.pick(3) {
        0 => {
            let v = 3 + ch.pick(3) as u8;
            let sec: &[u8] = if v == 5 { &[0] } else { &[] };
            let mut b = vec![];
            let first = match ch.pick(4) {
                0 => {
                    b.extend(lp(s));
                    b.extend(sec);
                    b.extend(b"rest");
                    0x30
                }
                1 => {
                    b.extend([0, 1]);
                    b.extend(sec);
                    b.extend(lp(s));
                    b.push(0);
                    0x82
                }
                2 => {
                    b.extend([0, 1]);
                    b.extend(sec);
                    b.extend(lp(s));
                    0xA2
                }
                _ => {
                    b.extend(if v == 3 { &b"\0\x06MQIsdp\x03"[..] } else { b"\0\x04MQTT" });
                    if v > 3 {
                        b.push(v);
                    }
                    b.extend([0xC6, 0, 10]);
                    b.extend(sec);
                    // client id, will topic, user name
                    let k = ch.pick(3);
                    b.extend(lp(if k == 0 { s } else { b"c" }));
                    b.extend(sec);
                    b.extend(lp(if k == 1 { s } else { b"t" }));
                    b.extend(lp(b"m"));
                    b.extend(lp(if k == 2 { s } else { b"u" }));
                    b.extend(lp(b"p"));
                    0x10
                }
            };
            (finish(first, &b), v)
        }
        1 => {
            let c = &CARRIERS[ch.pick(14)];
            let l: Vec<u8> =
                legal(c.ctx).into_iter().filter(|i| matches!(spec::prop_info(*i), Some((spec::Ty::Str, _)))).collect();
            let mut p = vec![];
            if !l.is_empty() {
                p.push(l[ch.pick(l.len())]);
                p.extend(lp(s));
            }
            (carry(c, p.len() as u32, &p), 5)
        }
        _ => {
            let c = &CARRIERS[ch.pick(14)];
            let k = ch.pick(2);
            let mut p = vec![0x26];
            p.extend(lp(if k == 0 { s } else { b"k" }));
            p.extend(lp(if k == 1 { s } else { b"v" }));
            (carry(c, p.len() as u32, &p), 5)
        }
    }
}

pub fn utf8_places(part: Part, quick: bool, known: bool) -> Run {
    Run::new(
        "utf8-places",
        "every text field of every packet and version: characters of one to four bytes up to 8192 bytes, then every one or two boundary bytes of \
         UTF-8 or a complete, cut or malformed character, then 0, 1 or 70 bytes",
        0,
        move |ch, cx| {
            let s = long_bytes(ch, quick);
            let (b, v) = text_place(ch, &s);
            compare(part, &b, v, cx, known)
        },
    )
}

/// one of the text fields holding exactly these bytes
fn text_carrier(ch: &mut Ch, s: &[u8]) -> (Vec<u8>, u8) {
    let lp = |s: &[u8]| {
        let mut v = vec![(s.len() >> 8) as u8, s.len() as u8];
        v.extend_from_slice(s);
        v
    };
    let mut body = vec![];
    let (first, version) = match ch.pick(7) {
        0 => {
            body.extend(lp(s));
            (0x30, 4)
        }
        1 => {
            body.extend([0, 1]);
            body.extend(lp(s));
            body.push(0);
            (0x82, 4)
        }
        2 => {
            body.extend([0, 1]);
            body.extend(lp(s));
            (0xA2, 4)
        }
        3 => {
            body.extend(b"\0\x04MQTT\x04\x02\0\x0A");
            body.extend(lp(s));
            (0x10, 4)
        }
        4 => {
            body.extend(b"\0\x04MQTT\x04\x82\0\x0A\0\x01c");
            body.extend(lp(s));
            (0x10, 4)
        }
        k => {
            let mut p = if k == 5 { vec![0x1F] } else { vec![0x26, 0, 1, b'k'] };
            p.extend(lp(s));
            body.extend([0, 1, 0]);
            put_var(&mut body, p.len() as u32);
            body.extend(p);
            (0x40, 5)
        }
    };
    let mut b = vec![first];
    put_var(&mut b, body.len() as u32);
    b.extend(body);
    (b, version)
}

fn big(part: Part) -> Run {
    Run::new("big", "packets whose remaining length needs two, three and four bytes, at each boundary, with the length written minimally and padded", 0, move |ch, cx| {
        let total = [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2_097_150, 2_097_151, 2_097_152, 2_097_153][ch.pick(12)];
        let pad = ch.pick(3);
        let v = [5u8, 4][ch.pick(2)];
        let mut body = b"\0\x03a/b".to_vec();
        if v == 5 {
            body.push(0);
        }
        while body.len() < total {
            body.push((body.len() % 251) as u8);
        }
        let mut b = vec![0x30];
        match pad {
            0 => put_var(&mut b, total as u32),
            1 => put_var_n(&mut b, total as u32, 4),
            _ => put_var_n(&mut b, total as u32, if total < 128 { 2 } else if total < 16384 { 3 } else { 4 }),
        }
        b.extend(body);
        compare(part, &b, v, cx, false)
    })
}

/// frames of many more shapes than the catalogue, few of each: every subset of the properties of a section,
/// lists of up to `max` items, repeated properties, every CONNECT flag byte, texts in every text field, and
/// every catalogue packet with one byte replaced
pub fn other_frame(ch: &mut Ch, cat: &[Frame], max: usize) -> Frame {
    match ch.pick(7) {
        0 => {
            let c = &CARRIERS[ch.pick(14)];
            let ids: Vec<u8> = legal(c.ctx).into_iter().filter(|_| ch.pick(2) == 1).collect();
            let p = props(&ids);
            Frame { bytes: carry(c, p.len() as u32, &p), version: 5 }
        }
        1 => {
            let (bytes, version) = list_frame(ch, max);
            Frame { bytes, version }
        }
        2 => {
            let (bytes, version) = small_list_frame(ch, 3);
            Frame { bytes, version }
        }
        3 => {
            let t = crate::gen::SIMILAR[ch.pick(crate::gen::SIMILAR.len())];
            let (bytes, version) = text_carrier(ch, t.as_bytes());
            Frame { bytes, version }
        }
        4 => repeats(ch, 3),
        5 => connect_free(ch),
        _ => {
            let f = &cat[ch.pick(cat.len())];
            let mut bytes = f.bytes.clone();
            let i = ch.pick(bytes.len());
            bytes[i] = [0u8, 1, 0x26, 0x7F, 0x80, 0xFF, bytes[i] ^ 1, bytes[i].wrapping_add(1)][ch.pick(8)];
            Frame { bytes, version: f.version }
        }
    }
}

/// every CONNECT flag byte; the content is what the flags announce
pub fn connect_free(ch: &mut Ch) -> Frame {
    let level = [5u8, 4, 3][ch.pick(3)];
    let flags = ch.pick(256) as u8;
    let props = if level == 5 {
        if flags == 0xEE || flags == 0x02 {
            // all subsets of the connect properties, or of the will properties
            ch.pick(3)
        } else {
            3 + ch.pick(4)
        }
    } else {
        3
    };
    let choose = |ch: &mut Ch, ctx: Ctx, mode: usize| -> Vec<u8> {
        legal(ctx)
            .into_iter()
            .filter(|_| match mode {
                0 => ch.pick(2) == 1,
                1 => true,
                _ => false,
            })
            .collect()
    };
    let c: Vec<u8> = choose(
        ch,
        Ctx::Connect,
        match props {
            0 => 0,
            1 => 2,
            2 => 1,
            4 | 6 => 1,
            _ => 2,
        },
    );
    let w: Vec<u8> = choose(
        ch,
        Ctx::Will,
        match props {
            0 => 2,
            1 => 0,
            2 => 1,
            5 | 6 => 1,
            _ => 2,
        },
    );
    let mut b = vec![];
    b.extend(if level == 3 { &b"\0\x06MQIsdp"[..] } else { &b"\0\x04MQTT"[..] });
    b.push(level);
    b.push(flags);
    b.extend([0x0B, 0xB8]);
    if level == 5 {
        section(&mut b, &c);
    }
    b.extend(b"\0\x06client");
    if flags & 4 != 0 {
        if level == 5 {
            section(&mut b, &w);
        }
        b.extend(b"\0\x0Awill/topic\0\x07payload");
    }
    if flags & 0x80 != 0 {
        b.extend(b"\0\x04user");
    }
    if flags & 0x40 != 0 {
        b.extend(b"\0\x04pass");
    }
    Frame { bytes: finish(0x10, &b), version: level }
}

pub fn finish(first: u8, body: &[u8]) -> Vec<u8> {
    let mut x = vec![first];
    put_var(&mut x, body.len() as u32);
    x.extend_from_slice(body);
    x
}

/// the properties of this list, one after the other, each with its default tag value
pub fn props(ids: &[u8]) -> Vec<u8> {
    let none: Vec<u32> = vec![];
    let mut c = Ch::new(&none, 0);
    let mut w =
        W { ch: &mut c, out: vec![], full: true, wide: false, free: false, same: false, part: 0, slots: Slots::NONE };
    let mut seen = [0usize; 256];
    for i in ids {
        w.prop(*i, seen[*i as usize]);
        seen[*i as usize] += 1;
    }
    w.out
}

fn section(out: &mut Vec<u8>, ids: &[u8]) {
    let p = props(ids);
    put_var(out, p.len() as u32);
    out.extend(p);
}

/// the places where a version 5 packet has a property section
pub struct Carrier {
    pub name: &'static str,
    pub ctx: Ctx,
    pub first: u8,
    pub before: &'static [u8],
    pub after: &'static [u8],
}

pub const CARRIERS: [Carrier; 14] = [
    Carrier {
        name: "CONNECT",
        ctx: Ctx::Connect,
        first: 0x10,
        before: b"\0\x04MQTT\x05\x02\0\x0A",
        after: b"\0\x06client",
    },
    Carrier {
        name: "will",
        ctx: Ctx::Will,
        first: 0x10,
        before: b"\0\x04MQTT\x05\xC6\0\x0A\0\0\x06client",
        after: b"\0\x05topic\0\x07payload\0\x04user\0\x04pass",
    },
    Carrier { name: "CONNACK", ctx: Ctx::Connack, first: 0x20, before: &[1, 0], after: b"" },
    Carrier { name: "PUBLISH", ctx: Ctx::Publish, first: 0x32, before: b"\0\x03a/b\0\x07", after: b"hello" },
    Carrier { name: "PUBACK", ctx: Ctx::Ack, first: 0x40, before: &[1, 2, 0x10], after: b"" },
    Carrier { name: "PUBREC", ctx: Ctx::Ack, first: 0x50, before: &[1, 2, 0x80], after: b"" },
    Carrier { name: "PUBREL", ctx: Ctx::Ack, first: 0x62, before: &[1, 2, 0x92], after: b"" },
    Carrier { name: "PUBCOMP", ctx: Ctx::Ack, first: 0x70, before: &[1, 2, 0x92], after: b"" },
    Carrier {
        name: "SUBSCRIBE",
        ctx: Ctx::Subscribe,
        first: 0x82,
        before: &[1, 2],
        after: b"\0\x03a/b\x01\0\x01+\x2C",
    },
    Carrier { name: "SUBACK", ctx: Ctx::Ack, first: 0x90, before: &[1, 2], after: &[1, 0x80] },
    Carrier { name: "UNSUBSCRIBE", ctx: Ctx::Unsubscribe, first: 0xA2, before: &[1, 2], after: b"\0\x03a/b\0\x01+" },
    Carrier { name: "UNSUBACK", ctx: Ctx::Ack, first: 0xB0, before: &[1, 2], after: &[0x11, 0] },
    Carrier { name: "DISCONNECT", ctx: Ctx::Disconnect, first: 0xE0, before: &[0x04], after: b"" },
    Carrier { name: "AUTH", ctx: Ctx::Auth, first: 0xF0, before: &[0x18], after: b"" },
];

fn text(b: &mut Vec<u8>, s: &str) {
    b.extend((s.len() as u16).to_be_bytes());
    b.extend(s.bytes());
}

pub const TWINS: &str =
    "two texts of one length (0 to 5000 bytes: edge lengths and those the source names) that differ in one \
    character near the start, the middle or the end, or in the order of two";

/// two texts of the same length that differ in one character or in the order of two neighbours
pub fn twins(ch: &mut Ch) -> (String, String) {
    static LEN: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let lens = LEN.get_or_init(|| {
        let mut l: std::collections::BTreeSet<usize> = (1..=10).collect();
        l.extend([15, 16, 17, 20, 23, 24, 25, 28, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200]);
        l.extend([255, 256, 257, 300, 512, 1000, 4095, 4097]);
        l.extend(crate::src::ints(1, 5000).iter().map(|n| *n as usize));
        l.into_iter().collect()
    });
    let n = lens[ch.pick(lens.len())];
    let at = [0, 1, 2, 3, 4, 7, 8, 15, 16, n / 4, n / 2, n - n / 4, n.saturating_sub(9), n.saturating_sub(8)];
    let mut at: Vec<usize> = at.into_iter().chain((1..=5).map(|k| n.saturating_sub(k))).filter(|i| *i < n).collect();
    at.sort();
    at.dedup();
    let i = at[ch.pick(at.len())];
    let t: Vec<u8> = (0..n).map(|i| b'a' + (i * 7 % 26) as u8).collect();
    let mut u = t.clone();
    if ch.pick(2) == 1 && i + 1 < n {
        u.swap(i, i + 1)
    } else {
        u[i] = u[i].to_ascii_uppercase()
    }
    (String::from_utf8(t).unwrap(), String::from_utf8(u).unwrap())
}

/// one packet with two similar texts in its places
pub fn twin_frame(ch: &mut Ch) -> (Vec<u8>, u8) {
    let (t, u) = twins(ch);
    let w = [&t[..], &u[..]];
    match ch.pick(6) {
        k @ 0..=2 => {
            let c = &CARRIERS[ch.pick(14)];
            let mut p = vec![];
            for i in [0, 1, 0] {
                p.push(0x26);
                text(&mut p, if k == 1 { "k" } else { w[i] });
                text(&mut p, if k == 0 { ["1", "2"][i] } else { w[if k == 1 { i } else { 1 - i }] });
            }
            (carry(c, p.len() as u32, &p), 5)
        }
        3 => {
            let v = [4u8, 5][ch.pick(2)];
            let subscribe = ch.pick(2) == 1;
            let mut b = vec![0, 9];
            if v == 5 {
                b.push(0);
            }
            for i in [0, 1, 0] {
                text(&mut b, w[i]);
                if subscribe {
                    b.push(i as u8);
                }
            }
            (finish(if subscribe { 0x82 } else { 0xA2 }, &b), v)
        }
        4 => {
            let mut b = b"\0\x04MQTT\x04\xC6\0\x0A".to_vec();
            for _ in 0..5 {
                text(&mut b, w[ch.pick(2)]);
            }
            (finish(0x10, &b), 4)
        }
        _ => {
            let mut b = vec![];
            text(&mut b, w[ch.pick(2)]);
            let mut p = vec![3];
            text(&mut p, w[ch.pick(2)]);
            p.push(8);
            text(&mut p, w[ch.pick(2)]);
            p.push(9);
            text(&mut p, w[ch.pick(2)]);
            put_var(&mut b, p.len() as u32);
            b.extend(p);
            (finish(0x30, &b), 5)
        }
    }
}

pub const SHAPES: &str =
    "every combination of flags, optional parts and version with every length: PUBLISH (DUP, RETAIN, QoS, properties) whose payload or \
     topic has 0 to 520 bytes, CONNECT (all flags, properties) one field of which has 0 to 300 bytes, SUBSCRIBE, UNSUBSCRIBE, DISCONNECT, \
     confirmations and AUTH one text of which has 0 to 300 bytes";

/// one packet, its flags and parts in all combinations, one of its lengths out of a whole range
pub fn shaped_frame(ch: &mut Ch) -> (Vec<u8>, u8) {
    let fill = |n: usize| -> String { (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect() };
    let section = |k: usize, n: usize| -> Vec<u8> {
        let mut p = vec![];
        if k > 0 {
            p.push(0x26);
            text(&mut p, "k");
            text(&mut p, &fill(n));
        }
        let mut b = vec![];
        put_var(&mut b, p.len() as u32);
        b.extend(p);
        b
    };
    let v = [5u8, 4, 3][ch.pick(3)];
    match ch.pick(5) {
        0 | 1 => {
            let first = 0x30 | [0u8, 2, 4][ch.pick(3)] | (ch.pick(2) as u8) << 3 | ch.pick(2) as u8;
            let with = if v == 5 { ch.pick(3) } else { 0 };
            let n = ch.pick(521);
            // the length belongs to the payload, the topic or the property
            let part = ch.pick(if with == 2 { 3 } else { 2 });
            let mut b = vec![];
            text(&mut b, &if part == 1 { fill(n.max(1)) } else { "to/pic".into() });
            if first & 6 > 0 {
                b.extend([0x12, 0x34]);
            }
            if v == 5 {
                match with {
                    0 => b.push(0),
                    1 => b.extend([3, 0x23, 0, 9]),
                    _ => b.extend(section(1, if part == 2 { n } else { 3 })),
                }
            }
            b.extend(fill(if part == 0 { n } else { 4 }).bytes());
            (finish(first, &b), v)
        }
        2 => {
            let (user, pass, clean) = (ch.pick(2) as u8, ch.pick(2) as u8, ch.pick(2) as u8);
            let will = [0u8, 0x04, 0x24, 0x0C, 0x2C, 0x14, 0x34][ch.pick(7)];
            let with = if v == 5 { ch.pick(3) } else { 0 };
            let n = ch.pick(301);
            let part = ch.pick(7);
            // only the part that is there
            let there = [true, user > 0, pass > 0, will > 0, will > 0, with == 1, with == 2 && will > 0][part];
            let n = if there { n } else { 0 };
            let len = |i: usize, d: usize| fill(if i == part { n } else { d });
            let mut b = vec![];
            text(&mut b, if v == 3 { "MQIsdp" } else { "MQTT" });
            b.extend([v, user << 7 | pass << 6 | will | clean << 1, 0, 60]);
            if v == 5 {
                b.extend(section((with == 1) as usize, if part == 5 { n } else { 3 }));
            }
            text(&mut b, &len(0, 5));
            if will > 0 {
                if v == 5 {
                    b.extend(section((with == 2) as usize, if part == 6 { n } else { 3 }));
                }
                text(&mut b, &len(3, 4));
                text(&mut b, &len(4, 6));
            }
            if user > 0 {
                text(&mut b, &len(1, 3));
            }
            if pass > 0 {
                text(&mut b, &len(2, 2));
            }
            (finish(0x10, &b), v)
        }
        3 => {
            let with = if v == 5 { ch.pick(2) } else { 0 };
            let n = ch.pick(301);
            let subscribe = ch.pick(2) == 1;
            let (count, at) = [(1usize, 0usize), (2, 0), (2, 1), (3, 1)][ch.pick(4)];
            let opt = if v == 5 { [0u8, 1, 2, 0x0D, 0x2A][ch.pick(5)] } else { [0, 1, 2][ch.pick(3)] };
            let mut b = vec![0x20, 9];
            if v == 5 {
                b.extend(section(with, 3));
            }
            for i in 0..count {
                text(&mut b, &fill(if i == at { n.max(1) } else { 4 }));
                if subscribe {
                    b.push(opt)
                }
            }
            (finish(if subscribe { 0x82 } else { 0xA2 }, &b), v)
        }
        _ => {
            let n = ch.pick(301);
            let first = [0x40u8, 0x50, 0x62, 0x70, 0xE0, 0xF0, 0x90, 0xB0][ch.pick(8)];
            let code = [0u8, 0x80, 0x87, 0x92][ch.pick(4)];
            let reason = ch.pick(2) == 1;
            let mut p = vec![];
            if reason {
                p.push(0x1F);
                text(&mut p, &fill(n));
            } else {
                p.push(0x26);
                text(&mut p, &fill(n));
                text(&mut p, "value");
            }
            if first == 0xF0 {
                p.push(0x15);
                text(&mut p, "m");
            }
            let mut b = vec![];
            if first < 0xC0 {
                b.extend([7, 8]);
            }
            if first < 0x80 || first >= 0xC0 {
                b.push(if first == 0xF0 { [0, 0x18, 0x19, 0][ch.pick(3)] } else { code });
            }
            put_var(&mut b, p.len() as u32);
            b.extend(p);
            if first == 0x90 || first == 0xB0 {
                b.extend([0, code]);
            }
            (finish(first, &b), 5)
        }
    }
}

/// packets of one of six types (and versions) whose texts are all the given one
pub fn all_one_text(ch: &mut Ch, t: &str) -> (Vec<u8>, u8) {
    let mut b = vec![];
    match ch.pick(7) {
        0 => {
            text(&mut b, t);
            b.extend(t.bytes());
            (finish(0x30, &b), 4)
        }
        1 => {
            text(&mut b, t);
            b.extend([0, 7]);
            let mut p = vec![3];
            text(&mut p, t);
            p.push(8);
            text(&mut p, t);
            p.push(9);
            text(&mut p, t);
            p.push(0x26);
            text(&mut p, t);
            text(&mut p, t);
            put_var(&mut b, p.len() as u32);
            b.extend(p);
            b.extend(t.bytes());
            (finish(0x32, &b), 5)
        }
        2 => {
            let mut b = b"\0\x04MQTT\x04\xC6\0\x0A".to_vec();
            for _ in 0..5 {
                text(&mut b, t);
            }
            (finish(0x10, &b), 4)
        }
        3 => {
            b.extend([0, 9]);
            text(&mut b, t);
            b.push(1);
            (finish(0x82, &b), 4)
        }
        4 => {
            b.extend([0, 9, 0]);
            text(&mut b, t);
            (finish(0xA2, &b), 5)
        }
        5 => {
            let mut p = vec![0x1F];
            text(&mut p, t);
            p.push(0x26);
            text(&mut p, t);
            text(&mut p, t);
            b.extend([0, 9, 0]);
            put_var(&mut b, p.len() as u32);
            b.extend(p);
            (finish(0x40, &b), 5)
        }
        _ => {
            let mut p = vec![0x15];
            text(&mut p, t);
            p.push(0x16);
            text(&mut p, t);
            p.push(0x1F);
            text(&mut p, t);
            b.push(0x18);
            put_var(&mut b, p.len() as u32);
            b.extend(p);
            (finish(0xF0, &b), 5)
        }
    }
}

/// user properties, topics and CONNECT fields with texts that are different but similar
pub fn similar_frame(ch: &mut Ch) -> (Vec<u8>, u8) {
    use crate::gen::SIMILAR as S;
    let n = S.len();
    match ch.pick(6) {
        k @ (0 | 1) => {
            // names: three different places; values: of one name
            let c = &CARRIERS[ch.pick(14)];
            let mut p = vec![];
            for i in 0..3 {
                let t = S[ch.pick(n)];
                p.push(0x26);
                text(&mut p, if k == 0 { t } else { "k" });
                text(&mut p, if k == 1 { t } else { ["1", "2", "1"][i] });
            }
            (carry(c, p.len() as u32, &p), 5)
        }
        2 => {
            // a name and a value, and another name and value
            let c = &CARRIERS[ch.pick(14)];
            let mut p = vec![];
            for j in 0..2 {
                p.push(0x26);
                text(&mut p, S[ch.pick(n)]);
                text(&mut p, if j == 0 { S[ch.pick(n)] } else { "v" });
            }
            (carry(c, p.len() as u32, &p), 5)
        }
        3 => {
            let v = [4u8, 5][ch.pick(2)];
            let subscribe = ch.pick(2) == 1;
            let mut b = vec![0, 9];
            if v == 5 {
                b.push(0);
            }
            for i in 0..3 {
                text(&mut b, S[ch.pick(n)]);
                if subscribe {
                    b.push(i % 2);
                }
            }
            (finish(if subscribe { 0x82 } else { 0xA2 }, &b), v)
        }
        4 => {
            let few = ["k", "K", "k ", "kk", "e\u{301}", "é"];
            let mut b = b"\0\x04MQTT\x04\xC6\0\x0A".to_vec();
            for _ in 0..5 {
                text(&mut b, few[ch.pick(few.len())]);
            }
            (finish(0x10, &b), 4)
        }
        _ => {
            // topic, content type, response topic
            let mut b = vec![];
            text(&mut b, S[ch.pick(n)]);
            let mut p = vec![3];
            text(&mut p, S[ch.pick(n)]);
            p.push(8);
            text(&mut p, S[ch.pick(n)]);
            b.push(p.len() as u8);
            b.extend(p);
            (finish(0x30, &b), 5)
        }
    }
}

pub fn carry(c: &Carrier, announced: u32, section: &[u8]) -> Vec<u8> {
    let mut b = c.before.to_vec();
    put_var(&mut b, announced);
    b.extend_from_slice(section);
    b.extend_from_slice(c.after);
    finish(c.first, &b)
}

/// sequences of at most `max` repeatable properties, mixed with one other
pub fn repeats(ch: &mut Ch, max: usize) -> Frame {
    let c = &CARRIERS[ch.pick(14)];
    let n = ch.pick(max + 1);
    let mut p = vec![];
    let ids = c.ctx == Ctx::Publish;
    for _ in 0..n {
        match ch.pick(6 + 2 * ids as usize) {
            0 => p.extend(b"\x26\0\x01a\0\x011"),
            1 => p.extend(b"\x26\0\x01a\0\x012"),
            2 => p.extend(b"\x26\0\x01b\0\x011"),
            3 => p.extend(b"\x26\0\0\0\0"),
            4 => p.extend(b"\x26\0\x01a\0\0"),
            5 => p.extend(b"\x26\0\x02a1\0\0"),
            6 => p.extend(b"\x0B\x07"),
            _ => p.extend(b"\x0B\xAC\x02"),
        }
    }
    Frame { bytes: carry(c, p.len() as u32, &p), version: 5 }
}

pub fn c13(quick: bool) -> Vec<Run> {
    let f = |b: &[u8], cx: &mut Cx| compare(Part::Both, b, 5, cx, false);
    let mut pool: Vec<u8> = ALL_PROPS.to_vec();
    pool.extend([0x00, 0x04, 0x0A, 0x2B, 0x7F, 0x80, 0xFF]);
    vec![
        Run::new("single", "each of the 256 property codes alone in each of 14 sections, and among user properties", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let id = ch.pick(256) as u8;
            let p = match ch.pick(4) {
                0 => props(&[id]),
                1 => props(&[0x26, id]),
                2 => props(&[id, 0x26]),
                _ => props(&[0x26, id, 0x26]),
            };
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        Run::new("values", "each legal property with every value of a one-byte, every edge value of a two- or four-byte, and every edge content of a text field", 1, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let l = legal(c.ctx);
            let id = l[ch.pick(l.len())];
            let mut w = W { ch, out: vec![], full: true, wide: true, free: false, same: false, part: 0, slots: Slots::NONE };
            w.prop(id, 0);
            let p = w.out;
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        source_values(Part::Both, if quick { 0 } else { 1 }, false, false),
        Run::new("pairs", "every ordered pair of property codes (27 defined, 7 undefined) in each of 14 sections", 0, {
            let pool = pool.clone();
            move |ch, cx| {
                let c = &CARRIERS[ch.pick(14)];
                let p = props(&[pool[ch.pick(pool.len())], pool[ch.pick(pool.len())]]);
                f(&carry(c, p.len() as u32, &p), cx)
            }
        }),
        Run::new(
            "orders",
            if quick {
                "every ordered selection of up to five legal properties (six where there are at most nine); the full list rotated by every amount, forwards and backwards"
            } else {
                "every ordered selection of up to six legal properties (eight where there are at most nine); the full list rotated by every amount, forwards and backwards"
            },
            0,
            move |ch, cx| {
                let c = &CARRIERS[ch.pick(14)];
                let mut l = legal(c.ctx);
                let ids = if ch.pick(2) == 0 {
                    let r = ch.pick(l.len());
                    l.rotate_left(r);
                    if ch.pick(2) == 1 {
                        l.reverse()
                    }
                    l
                } else {
                    let max = if l.len() <= 9 { if quick { 6 } else { 8 } } else if quick { 5 } else { 6 };
                    let max = max.min(l.len());
                    let mut x = vec![];
                    for _ in 0..max {
                        let k = ch.pick(l.len() + 1);
                        if k == 0 {
                            break;
                        }
                        x.push(l.remove(k - 1));
                    }
                    x
                };
                let p = props(&ids);
                f(&carry(c, p.len() as u32, &p), cx)
            },
        ),
        Run::new(
            "mixed",
            "every ordered selection of up to three legal properties with up to two user properties (of one name or of two) and subscription identifiers before, between and after them",
            0,
            move |ch, cx| {
                let c = &CARRIERS[ch.pick(14)];
                let mut l: Vec<u8> = legal(c.ctx).into_iter().filter(|i| !matches!(i, 0x26 | 0x0B)).collect();
                let mut p = vec![];
                let (mut ids, mut n) = (0, 0u8);
                for k in 0..4 {
                    for _ in 0..2 {
                        let kinds = if c.ctx == Ctx::Publish { 4 } else { 3 };
                        match ch.pick(kinds) {
                            0 => break,
                            1 => p.extend([0x26, 0, 1, b'a', 0, 1, b'0' + n]),
                            2 => p.extend([0x26, 0, 1, b'b', 0, 1, b'0' + n]),
                            _ => {
                                if ids == 0 {
                                    p.extend([0x0B, 0x85, 0x01])
                                } else {
                                    p.extend([0x0B, 3 + n])
                                }
                                ids += 1;
                            }
                        }
                        n += 1;
                    }
                    if k == 3 || l.is_empty() {
                        break;
                    }
                    let i = ch.pick(l.len() + 1);
                    if i == 0 {
                        break;
                    }
                    p.extend(props(&[l.remove(i - 1)]));
                }
                f(&carry(c, p.len() as u32, &p), cx)
            },
        ),
        Run::new("pair-values", "every ordered pair of legal properties, both with deviating values", 2, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let mut l = legal(c.ctx);
            let a = l.remove(ch.pick(l.len()));
            if l.is_empty() {
                return Ok(());
            }
            let b = l[ch.pick(l.len())];
            let mut w = W { ch, out: vec![], full: true, wide: false, free: false, same: false, part: 0, slots: Slots::NONE };
            w.prop(a, 0);
            w.prop(b, 0);
            let p = w.out;
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        Run::new(
            "subsets-deviating",
            "every subset of the legal properties of every version 5 packet with one deviation (property value, length, extra, missing or moved property, section and packet length)",
            1,
            move |ch, cx| {
                let kind = 1 + ch.pick(15);
                if matches!(kind, 12 | 13) {
                    return Ok(());
                }
                let fr = wire::frame_of(ch, false, true, kind, true, 5);
                f(&fr.bytes, cx)
            },
        ),
        Run::new("doubled", "the full legal list with any property doubled next to itself, at the start or at the end", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let mut l = legal(c.ctx);
            let i = ch.pick(l.len());
            let id = l[i];
            match ch.pick(3) {
                0 => l.insert(i, id),
                1 => l.insert(0, id),
                _ => l.push(id),
            }
            let p = props(&l);
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        Run::new("repeats", "every sequence of up to five user properties (two names, repeated values, empty) and subscription identifiers", 0, move |ch, cx| {
            let x = repeats(ch, if quick { 5 } else { 7 });
            f(&x.bytes, cx)
        }),
        Run::new("huge", HUGE, 0, move |ch, cx| {
            let (b, v) = huge_frame(ch, quick);
            compare(Part::Both, &b, v, cx, false)
        }),
        Run::new("lengths", "each section (empty, each legal property alone, two properties, all legal) with every announced length from 0 beyond the packet end, minimal and padded", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let l = legal(c.ctx);
            let k = ch.pick(l.len() + 4);
            let p = if k < l.len() {
                props(&[l[k]])
            } else if k == l.len() {
                vec![]
            } else if k == l.len() + 1 {
                props(&[0x26, 0x26])
            } else if k == l.len() + 2 {
                props(&[l[0], 0x26])
            } else {
                props(&l)
            };
            let n = ch.pick(p.len() + c.after.len() + 6);
            let announced = if n == p.len() + c.after.len() + 5 { MAXVAR } else { n as u32 };
            let mut b = c.before.to_vec();
            match ch.pick(3) {
                0 => put_var(&mut b, announced),
                1 => put_var_n(&mut b, announced, 4),
                _ => {
                    // five bytes
                    for i in 0..4 {
                        b.push(((announced >> (7 * i)) & 0x7F) as u8 | 0x80);
                    }
                    b.push(0);
                }
            }
            b.extend_from_slice(&p);
            b.extend_from_slice(c.after);
            f(&finish(c.first, &b), cx)
        }),
        Run::new(
            "similar-texts",
            "three user properties in every section: all selections of 26 names, of 26 values, of 26 names with 26 values, which differ in case, \
             blanks, composition, width, a prefix or a NUL only",
            0,
            move |ch, cx| {
                let (b, v) = similar_frame(ch);
                if v != 5 {
                    return Ok(());
                }
                f(&b, cx)
            },
        ),
        Run::new("twins", format!("{TWINS}, as names and values of user properties and as other properties"), 0, move |ch, cx| {
            let (b, v) = twin_frame(ch);
            if v != 5 {
                return Ok(());
            }
            f(&b, cx)
        }),
        Run::new("user-properties", "many user properties of the same and of different names: 1 to 40 names times 1 to 12 values, interleaved or grouped", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let names = 1 + ch.pick(40);
            let vals = 1 + ch.pick(12);
            let inter = ch.pick(2) == 0;
            let mut p = vec![];
            let mut one = |i: usize, j: usize| {
                let (k, v) = (format!("n{i}"), format!("v{}", j * 7 % 12));
                p.push(0x26);
                p.extend([0, k.len() as u8]);
                p.extend(k.bytes());
                p.extend([0, v.len() as u8]);
                p.extend(v.bytes());
            };
            if inter {
                for j in 0..vals {
                    for i in 0..names {
                        one(i, j)
                    }
                }
            } else {
                for i in 0..names {
                    for j in 0..vals {
                        one(i, j)
                    }
                }
            }
            f(&carry(c, p.len() as u32, &p), cx)
        }),
    ]
}

pub fn c16(quick: bool) -> Vec<Run> {
    let f = |b: &[u8], cx: &mut Cx| compare(Part::Both, b, 5, cx, false);
    vec![
        Run::new("subsets", "every subset of the legal properties of every section (131072 for CONNACK)", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let ids: Vec<u8> = legal(c.ctx).into_iter().filter(|_| ch.pick(2) == 1).collect();
            let p = props(&ids);
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        Run::new("subset-values", "every subset of the legal properties of every section, one value in it deviating", 1, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let ids: Vec<u8> = legal(c.ctx).into_iter().filter(|_| ch.pick(2) == 1).collect();
            let mut w = W { ch, out: vec![], full: true, wide: false, free: false, same: false, part: 0, slots: Slots::NONE };
            for i in ids {
                w.prop(i, 0);
            }
            let p = w.out;
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        source_values(Part::Both, if quick { 0 } else { 1 }, false, false),
        Run::new("reversed-subsets", "every subset of at most four properties, in reverse order, and the complement of every subset of at most two", 0, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let l = legal(c.ctx);
            let less = ch.pick(2) == 1;
            let max = if less { if quick { 2 } else { 4 } } else { 4 };
            let mut chosen = vec![];
            let mut from = 0;
            for _ in 0..max {
                let k = ch.pick(l.len() - from + 1);
                if k == 0 {
                    break;
                }
                from += k;
                chosen.push(l[from - 1]);
            }
            let mut ids: Vec<u8> = if less { l.into_iter().filter(|i| !chosen.contains(i)).collect() } else { chosen };
            ids.reverse();
            let p = props(&ids);
            f(&carry(c, p.len() as u32, &p), cx)
        }),
        Run::new("short-forms", "every packet that may omit trailing parts, cut after each part, with every code, every message id edge and every message id that the source names; explicit empty section and padded lengths", 0, move |ch, cx| {
            let k = ch.pick(7);
            let (first, mut body): (u8, Vec<u8>) = match k {
                0..=3 => {
                    let mut id = vec![0u32, 1, 0x0102, 0xFF00, 0x00FF, 0xFFFF];
                    id.extend(crate::src::ints(2, 0xFFFE));
                    let id = id[ch.pick(id.len())] as u16;
                    ([0x40, 0x50, 0x62, 0x70][k], id.to_be_bytes().to_vec())
                }
                4 => (0xE0, vec![]),
                5 => (0xF0, vec![]),
                _ => (0x20, vec![ch.pick(2) as u8]),
            };
            let parts = if k == 6 { 1 + ch.pick(2) } else { ch.pick(3) };
            if parts > 0 {
                body.push(ch.pick(256) as u8);
            }
            if parts > 1 {
                match ch.pick(3) {
                    0 => body.push(0),
                    1 => body.extend([0x80, 0x00]),
                    _ => body.extend([0x80, 0x80, 0x80, 0x00]),
                }
            }
            let mut b = vec![first];
            put_var_n(&mut b, body.len() as u32, 1 + ch.pick(2));
            b.extend(body);
            match ch.pick(2) {
                0 => {}
                _ => b.extend([0x1F, 0x00, 0x01, b'x', 0xC0, 0x00, 0x00, 0x00]),
            }
            f(&b, cx)
        }),
        Run::new("default-values", "the default property sets of CONNECT, CONNACK and will hold what a section without the property means", 0, move |ch, cx| {
            let k = ch.pick(3);
            let c = &CARRIERS[[0, 2, 1][k]];
            let p = props(&[0x26]);
            let Some(Verdict::Accept(x)) = verdict_of(&carry(c, p.len() as u32, &p), 5) else {
                return Err(Fail::new("the reference model refuses a user property"));
            };
            let none = UserProperties::new;
            let (want, got) = match x {
                MqttPacket::Connect(c) if k == 0 => (
                    format!("{:?}", c.properties.map(|p| ConnectProperties { user_properties: none(), ..p })),
                    format!("{:?}", Some(imp(ConnectProperties::default))),
                ),
                MqttPacket::Connack(c) => (
                    format!("{:?}", c.properties.map(|p| ConnackProperties { user_properties: none(), is_default: true, ..p })),
                    format!("{:?}", Some(imp(ConnackProperties::default))),
                ),
                MqttPacket::Connect(c) => (
                    format!("{:?}", c.will.and_then(|w| w.properties).map(|p| WillProperties { user_properties: none(), ..p })),
                    format!("{:?}", Some(imp(WillProperties::default))),
                ),
                _ => return Ok(()),
            };
            cx.describe(|| c.name.to_string());
            cx.outcome(k as u64);
            if want != got {
                return Err(Fail::new(format!("default properties of {}: {got} instead of {want}", c.name)));
            }
            Ok(())
        }),
        Run::new("sections-absent", "every packet type with an empty property section, in full and minimal form", 1, move |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let pad = ch.pick(4);
            let mut b = c.before.to_vec();
            put_var_n(&mut b, 0, pad + 1);
            b.extend_from_slice(c.after);
            f(&finish(c.first, &b), cx)
        }),
    ]
}

// ---------------------------------------------------------------------------------------------- C14

struct Table {
    name: &'static str,
    /// bytes the specification defines
    bytes: Vec<u8>,
    /// from_byte, then to_byte, then the debug name
    get: fn(u8) -> Result<(u8, String), String>,
    /// the name the specification's value has in the crate
    name_of: fn(u8) -> Option<String>,
}

fn tables() -> Vec<Table> {
    macro_rules! code {
        ($name:literal, $t:ty, $list:expr) => {
            Table {
                name: $name,
                bytes: $list.iter().map(|c| c.0).collect(),
                get: |b| <$t as MqttCode<$t>>::from_byte(b).map(|c| (c.to_byte(), format!("{c:?}"))),
                name_of: |b| $list.iter().find(|c| c.0 == b).map(|c| format!("{:?}", c.1)),
            }
        };
    }
    vec![
        code!("PUBACK/PUBREC codes", PubackPubrecCode, puback_codes()),
        code!("PUBREL/PUBCOMP codes", PubcompPubrelCode, pubcomp_codes()),
        code!("SUBACK codes", SubscriptionReasonCode, suback_codes()),
        code!("UNSUBACK codes", UnsubackCode, unsuback_codes()),
        code!("DISCONNECT codes", DisconnectCode, disconnect_codes()),
        code!("AUTH codes", AuthCode, auth_codes()),
        Table {
            name: "QoS",
            bytes: vec![0, 1, 2],
            get: |b| QoS::from_byte(b).map(|c| (c.to_byte(), format!("{c:?}"))),
            name_of: |b| spec::qos(b).map(|c| format!("{c:?}")),
        },
        Table {
            name: "Granted",
            bytes: vec![0, 1, 2, 0x80],
            get: |b| Granted::from_byte(b).map(|c| (c.to_byte(), format!("{c:?}"))),
            name_of: |b| spec::granted(b).map(|c| format!("{c:?}")),
        },
    ]
}

const TYPES: [PacketType; 16] = [
    PacketType::Reserved,
    PacketType::Connect,
    PacketType::Connack,
    PacketType::Publish,
    PacketType::Puback,
    PacketType::Pubrec,
    PacketType::Pubrel,
    PacketType::Pubcomp,
    PacketType::Subscribe,
    PacketType::Suback,
    PacketType::Unsubscribe,
    PacketType::Unsuback,
    PacketType::Pingreq,
    PacketType::Pingresp,
    PacketType::Disconnect,
    PacketType::Auth,
];

pub fn c14(_quick: bool) -> Vec<Run> {
    vec![
        Run::new("codes", "all 256 bytes through every code type", 0, |ch, cx| {
            let i = ch.pick(8);
            let b = ch.pick(256) as u8;
            let t = &tables()[i];
            cx.describe(|| format!("{} byte {b:#04x}", t.name));
            trace::model_start(i as u64);
            trace::push(mix(i as u64 * 256 + b as u64));
            let got = imp(|| (t.get)(b));
            cx.outcome(mix((i * 256 + b as usize) as u64));
            match ((t.name_of)(b), got) {
                (None, Err(_)) => Ok(()),
                (None, Ok((_, n))) => Err(Fail::new(format!("{}: undefined byte {b:#04x} accepted as {n}", t.name))),
                (Some(n), Err(e)) => Err(Fail::new(format!("{}: {b:#04x} ({n}) refused: {e}", t.name))),
                (Some(n), Ok((back, got))) => {
                    if n != got {
                        return Err(Fail::new(format!("{}: {b:#04x} means {n}, reported as {got}", t.name)));
                    }
                    if back != b {
                        return Err(Fail::new(format!("{}: {b:#04x} reads as {got}, which writes as {back:#04x}", t.name)));
                    }
                    cx.sample(|| format!("{} {b:#04x} <-> {n}", t.name));
                    debug_assert!(t.bytes.contains(&b));
                    Ok(())
                }
            }
        }),
        Run::new("header", "all 256 first bytes", 0, |ch, cx| {
            let b = ch.pick(256) as u8;
            cx.describe(|| format!("first byte {b:#04x}"));
            trace::model_start(99);
            trace::push(mix(0x4845_0000 + b as u64));
            let ty = (b >> 4) as usize;
            let f = b & 15;
            let got = imp(|| FixedHeader::from_byte(b));
            let ok = match ty {
                3 => (f >> 1) & 3 != 3,
                6 | 8 | 10 => f == 2,
                _ => f == 0,
            };
            cx.outcome(b as u64);
            match got {
                Err(e) if ok && b != 0 => Err(Fail::new(format!("first byte {b:#04x} refused: {e}"))),
                Err(_) => Ok(()),
                Ok(h) if !ok => Err(Fail::new(format!("first byte {b:#04x} accepted as {h:?}"))),
                Ok(h) => {
                    let publish = ty == 3;
                    let good = h.cmd == TYPES[ty]
                        && h.qos == (f >> 1) & 3
                        && h.dup == (publish && f & 8 != 0)
                        && h.retain == (publish && f & 1 != 0);
                    if !good {
                        return Err(Fail::new(format!("first byte {b:#04x} read as {h:?}")));
                    }
                    let back = imp(|| h.encode());
                    if back != b {
                        return Err(Fail::new(format!("first byte {b:#04x} reads as {h:?}, which writes as {back:#04x}")));
                    }
                    if PacketType::from_bits(b >> 4) != TYPES[ty] {
                        return Err(Fail::new(format!("type bits {ty} read as {:?}", PacketType::from_bits(b >> 4))));
                    }
                    if !publish {
                        let h = FixedHeader::for_type(TYPES[ty]);
                        let e = imp(|| h.encode());
                        if e != b {
                            return Err(Fail::new(format!("header for {:?} writes {e:#04x}", TYPES[ty])));
                        }
                    }
                    cx.sample(|| format!("{b:#04x} <-> {h:?}"));
                    Ok(())
                }
            }
        }),
        Run::new("connect-flags", "all 256 CONNECT flag bytes", 0, |ch, cx| {
            let b = ch.pick(256) as u8;
            cx.describe(|| format!("CONNECT flags {b:#04x}"));
            trace::model_start(98);
            trace::push(mix(0x464C_0000 + b as u64));
            cx.outcome(b as u64);
            let want = ConnectFlags {
                user_name: b >= 0x80,
                password: b / 0x40 % 2 == 1,
                will_retain: b / 0x20 % 2 == 1,
                will_qos: b / 8 % 4,
                will: b / 4 % 2 == 1,
                clean_session: b / 2 % 2 == 1,
            };
            let got = imp(|| ConnectFlags::new(b));
            if got != want {
                return Err(Fail::new(format!("CONNECT flags {b:#04x} read as {got:?}")));
            }
            let ok = b % 2 == 0 && want.will_qos != 3 && (want.will || (!want.will_retain && want.will_qos == 0));
            match imp(|| ConnectFlags::from_byte(b)) {
                Err(e) if ok => Err(Fail::new(format!("CONNECT flags {b:#04x} refused: {e}"))),
                Err(_) => Ok(()),
                Ok(x) if !ok => Err(Fail::new(format!("CONNECT flags {b:#04x} accepted as {x:?}"))),
                Ok((f, w)) => {
                    let same = match &w {
                        None => !want.will,
                        Some(w) => {
                            want.will
                                && w.qos == want.will_qos
                                && w.retain == want.will_retain
                                && w.topic.is_none()
                                && w.payload.is_none()
                                && w.properties.is_none()
                        }
                    };
                    if f != want || !same {
                        return Err(Fail::new(format!("CONNECT flags {b:#04x} read as {f:?} with {w:?}")));
                    }
                    cx.sample(|| format!("CONNECT flags {b:#04x}: {f:?}"));
                    Ok(())
                }
            }
        }),
        Run::new("header-fields", "PUBLISH headers with every dup, retain and QoS 0-2", 0, |ch, cx| {
            let h = FixedHeader { cmd: PacketType::Publish, dup: ch.pick(2) == 1, qos: ch.pick(3) as u8, retain: ch.pick(2) == 1 };
            let b = imp(|| h.encode());
            cx.outcome(b as u64);
            let want = 0x30 | (h.dup as u8) << 3 | h.qos << 1 | h.retain as u8;
            if b != want || imp(|| FixedHeader::from_byte(b)) != Ok(h.clone()) {
                return Err(Fail::new(format!("{h:?} writes {b:#04x}")));
            }
            Ok(())
        }),
        Run::new("source-texts", "every text that the source names, alone, repeated, in other case and among other characters, as a protocol name", 0, |ch, cx| {
            let t = crate::src::texts();
            if t.is_empty() {
                return Ok(());
            }
            let s = &t[ch.pick(t.len())];
            let s = [s.clone(), format!("{s} "), format!(" {s}"), format!("{s}\0"), format!("MQTT{s}"), format!("{s}MQTT")][ch.pick(6)].clone();
            cx.describe(|| format!("protocol name {s:?}"));
            let want = match &s[..] {
                "MQTT" => Some(Protocol::Mqtt),
                "MQIsdp" => Some(Protocol::MQIsdp),
                _ => None,
            };
            let got = imp(|| Protocol::from_source(&s));
            cx.outcome(mix(s.len() as u64) ^ s.bytes().fold(0, |a, b| mix(a ^ b as u64)));
            if got.as_ref().ok() != want.as_ref() {
                return Err(Fail::new(format!("protocol name {s:?} read as {got:?}")));
            }
            Ok(())
        }),
        Run::new("protocol", "the two protocol names with every single-character edit", 0, |ch, cx| {
            let (name, p) = [("MQTT", Protocol::Mqtt), ("MQIsdp", Protocol::MQIsdp)][ch.pick(2)].clone();
            let n = name.len();
            let mut s: Vec<char> = name.chars().collect();
            let edit = ch.pick(4);
            match edit {
                0 => {}
                1 => {
                    let i = ch.pick(n);
                    s[i] = ch.pick(256) as u8 as char
                }
                2 => {
                    s.remove(ch.pick(n));
                }
                _ => {
                    let i = ch.pick(n + 1);
                    s.insert(i, ch.pick(256) as u8 as char)
                }
            }
            let s: String = s.into_iter().collect();
            cx.describe(|| format!("protocol name {s:?}"));
            let got = imp(|| Protocol::from_source(&s));
            cx.outcome(mix(s.len() as u64) ^ s.bytes().fold(0, |a, b| mix(a ^ b as u64)));
            if (s == name && got != Ok(p)) || (s != name && got.is_ok()) {
                return Err(Fail::new(format!("protocol name {s:?} read as {got:?}")));
            }
            Ok(())
        }),
        Run::new(
            "code-contexts",
            "all 256 values of every code byte with no, an empty, and every subset of up to three properties behind or before it, at every place of a list of up to four, with message ids at the edges",
            0,
            |ch, cx| {
                let k = ch.pick(9);
                let b = ch.pick(256) as u8;
                let id = [0u16, 1, 0x00FF, 0x7FFF, 0xFFFF][ch.pick(if k < 6 { 5 } else { 1 })];
                let ctx = match k {
                    7 => Ctx::Disconnect,
                    8 => Ctx::Auth,
                    6 => Ctx::Connack,
                    _ => Ctx::Ack,
                };
                let l = legal(ctx);
                let mut sect = vec![];
                let form = ch.pick(5);
                if form >= 2 {
                    let mut ids = vec![];
                    let mut from = 0;
                    for _ in 0..form - 1 {
                        let i = ch.pick(l.len() - from + 1);
                        if i == 0 {
                            break;
                        }
                        from += i;
                        ids.push(l[from - 1]);
                        if from == l.len() {
                            break;
                        }
                    }
                    section(&mut sect, &ids);
                } else if form == 1 {
                    sect.push(0);
                }
                let bytes = match k {
                    0..=3 => {
                        let mut x = id.to_be_bytes().to_vec();
                        x.push(b);
                        x.extend(sect);
                        finish([0x40, 0x50, 0x62, 0x70][k], &x)
                    }
                    4 | 5 => {
                        let mut x = id.to_be_bytes().to_vec();
                        if sect.is_empty() {
                            return Ok(());
                        }
                        x.extend(sect);
                        let n = 1 + ch.pick(4);
                        let at = ch.pick(n);
                        for i in 0..n {
                            x.push(if i == at { b } else { [0x00, 0x80, 0x00, 0x87][i] });
                        }
                        finish(if k == 4 { 0x90 } else { 0xB0 }, &x)
                    }
                    6 => {
                        let mut x = vec![ch.pick(2) as u8, b];
                        x.extend(sect);
                        finish(0x20, &x)
                    }
                    _ => {
                        let mut x = vec![b];
                        x.extend(sect);
                        finish(if k == 7 { 0xE0 } else { 0xF0 }, &x)
                    }
                };
                compare(Part::Both, &bytes, 5, cx, false)?;
                if let (Some(Verdict::Accept(_)), Ok(p)) = (verdict_of(&bytes, 5), first(&bytes, 5)) {
                    let e = imp(|| p.clone().encode(5));
                    match e.as_ref().map(|e| first(e, 5)) {
                        Ok(Ok(q)) if q == p => {}
                        x => return Err(Fail::new(format!("{} becomes {e:?} and then {}", hex(&bytes), short(&x)))),
                    }
                }
                Ok(())
            },
        ),
        Run::new("in-packets", "all 256 values of every code byte inside real packets, decoded and encoded again", 0, |ch, cx| {
            let k = ch.pick(15);
            let b = ch.pick(256) as u8;
            let (v, bytes): (u8, Vec<u8>) = match k {
                0 => (5, vec![0x40, 4, 0, 1, b, 0]),
                1 => (5, vec![0x50, 4, 0, 1, b, 0]),
                2 => (5, vec![0x62, 4, 0, 1, b, 0]),
                3 => (5, vec![0x70, 4, 0, 1, b, 0]),
                4 => (5, vec![0x90, 5, 0, 1, 0, 0x80, b]),
                5 => (5, vec![0xB0, 5, 0, 1, 0, 0x11, b]),
                6 => (5, vec![0xE0, 2, b, 0]),
                7 => (5, vec![0xF0, 6 + 5, b, 9, 0x15, 0, 6, b'm', b'e', b't', b'h', b'o', b'd']),
                8 => (4, vec![0x90, 4, 0, 1, 0x80, b]),
                9 => (4, vec![0x82, 6, 0, 1, 0, 1, b'a', b]),
                10 => (5, vec![0x82, 7, 0, 1, 0, 0, 1, b'a', b]),
                11 => (5, vec![0x20, 3, 0, b, 0]),
                12 => (4, vec![0x20, 2, 0, b]),
                13 => (5, vec![0x20, 3, b, 0, 0]),
                _ => (4, vec![b, 2, 0, 1]),
            };
            let (v, bytes) = if k == 14 && ch.pick(2) == 1 { (5, bytes) } else { (v, bytes) };
            compare(Part::Both, &bytes, v, cx, false)?;
            if let (Some(Verdict::Accept(_)), Ok(p)) = (verdict_of(&bytes, v), first(&bytes, v)) {
                let e = imp(|| p.clone().encode(v));
                let Ok(e) = e else { return Err(Fail::new(format!("decoded from {} but not encodable: {e:?}", hex(&bytes)))) };
                match first(&e, v) {
                    Ok(q) if q == p => {}
                    x => return Err(Fail::new(format!("{} becomes {} and then {}", hex(&bytes), hex(&e), short(&x)))),
                }
            }
            Ok(())
        }),
    ]
}
