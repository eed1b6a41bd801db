//! Streams, histories and faults: C06 C07 C08 C09 C10 C19 C21.
use super::decode::{all_one_text, carry, huge_frame, other_frame, props, twins, CARRIERS, FIRST, HUGE, TWINS};
use super::encode::{same_bytes, same_result};
use crate::alloc;
use crate::explore::*;
use crate::gen::{self, Mode};
use crate::obs::*;
use crate::spec::{self, *};
use crate::src;
use crate::trace::{self, mix};
use crate::wire::{self, Frame};
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::*;
use std::cell::Cell;
use std::io::{BufReader, Cursor, ErrorKind, Read};
use std::rc::Rc;
use std::sync::Arc;

fn fr(version: u8, bytes: &[u8]) -> Frame {
    Frame { bytes: bytes.to_vec(), version }
}

/// complete packets, most of them malformed, each leaving the decoder through another exit
pub fn crooked() -> Vec<Frame> {
    let mut v = vec![
        // first byte
        fr(5, &[0x00, 0x00]),
        fr(5, &[0x00, 0x03, 0xC0, 0x00, 0xD0]),
        fr(4, &[0x41, 0x02, 0x00, 0x01]),
        fr(5, &[0x36, 0x05, 0x00, 0x01, b'a', 0x00, 0x01]),
        fr(5, &[0x80, 0x02, 0x00, 0x01]),
        fr(5, &[0x60, 0x00]),
        // nothing where something must be
        fr(5, &[0x10, 0x00]),
        fr(5, &[0x20, 0x00]),
        fr(5, &[0x20, 0x01, 0x00]),
        fr(4, &[0x30, 0x00]),
        fr(5, &[0x40, 0x00]),
        fr(4, &[0x40, 0x01, 0x00]),
        fr(5, &[0x82, 0x00]),
        fr(5, &[0x82, 0x03, 0x00, 0x01, 0x00]),
        fr(4, &[0x82, 0x02, 0x00, 0x01]),
        fr(4, &[0x90, 0x02, 0x00, 0x01]),
        fr(4, &[0xA2, 0x02, 0x00, 0x01]),
        // more than the packet needs
        fr(5, &[0xC0, 0x03, 0xC0, 0x00, 0x40]),
        fr(4, &[0xD0, 0x01, 0xFF]),
        fr(4, &[0x40, 0x05, 0x00, 0x01, 0xC0, 0x00, 0xFF]),
        fr(5, &[0x40, 0x06, 0x00, 0x01, 0x10, 0x00, 0xC0, 0x00]),
        fr(4, &[0x20, 0x04, 0x00, 0x00, 0xD0, 0x00]),
        fr(5, &[0x20, 0x05, 0x00, 0x00, 0x00, 0xD0, 0x00]),
        fr(4, &[0xB0, 0x04, 0x00, 0x01, 0xC0, 0x00]),
        fr(4, &[0xE0, 0x02, 0xC0, 0x00]),
        fr(5, &[0xE0, 0x04, 0x00, 0x00, 0xC0, 0x00]),
        fr(5, &[0xF0, 0x04, 0x00, 0x00, 0xC0, 0x00]),
        fr(4, b"\x10\x11\0\x04MQTT\x04\x02\0\x0A\0\x01c\xC0\x00\xD0\x00"),
        // fields that overrun
        fr(4, &[0x30, 0x04, 0x00, 0x09, b'a', b'b']),
        fr(4, &[0x32, 0x04, 0x00, 0x01, b'a', 0x00]),
        fr(5, &[0x32, 0x05, 0x00, 0x01, b'a', 0x00, 0x01]),
        fr(4, b"\x82\x08\0\x01\0\x01a\x01\0\x05"),
        fr(4, b"\x82\x07\0\x01\0\x01a\x01\0"),
        fr(4, b"\x82\x05\0\x01\0\x01a"),
        fr(4, b"\xA2\x07\0\x01\0\x09abc"),
        fr(4, b"\x10\x0D\0\x04MQTT\x04\x82\0\x0A\0\x01c"),
        // contents
        fr(4, b"\x30\x04\0\x02\xC3\x28"),
        fr(5, &[0x40, 0x03, 0x00, 0x01, 0x7F]),
        fr(5, &[0x90, 0x04, 0x00, 0x01, 0x00, 0x7F]),
        fr(4, &[0x90, 0x04, 0x00, 0x01, 0x00, 0x7F]),
        fr(5, &[0xB0, 0x05, 0x00, 0x01, 0x00, 0x7F, 0x00]),
        fr(5, &[0xE0, 0x03, 0x7F, 0x00, 0x00]),
        fr(4, &[0xF0, 0x02, 0x00, 0x00]),
        fr(4, b"\x10\x0D\0\x04MQTX\x04\x02\0\x0A\0\x01c"),
        fr(4, b"\x10\x0D\0\x04MQTT\x07\x02\0\x0A\0\x01c"),
        fr(4, b"\x10\x0D\0\x04MQTT\x04\x03\0\x0A\0\x01c"),
        fr(4, b"\x82\x06\0\x01\0\x01a\x03"),
        fr(5, b"\x82\x07\0\x01\0\0\x01a\x31"),
    ];
    // errors at every depth of a property section
    for c in &CARRIERS {
        let bad: [&[u8]; 9] = [
            &[0x7F, 0x00],
            &[0x26, 0x00, 0x01, b'k', 0x00, 0x09],
            &[0x26, 0x00],
            &[0x1F],
            &[0x1F, 0x00, 0x05, b'x'],
            &[0x26, 0x00, 0x01, 0xFF, 0x00, 0x00],
            &[0x11, 0x00, 0x00],
            &[0x0B, 0x80],
            &[0x26, 0x00, 0x01, b'k', 0x00, 0x01, b'v', 0x7F],
        ];
        for b in bad {
            v.push(fr(5, &carry(c, b.len() as u32, b)));
        }
        v.push(fr(5, &carry(c, 200, &[])));
        v.push(fr(5, &carry(c, c.after.len() as u32 + 3, &[0x26, 0, 0, 0, 0])));
        v.push(fr(5, &carry(c, 4, &[0x26, 0, 0, 0, 0])));
        // an unknown property at the head of a long section
        let mut x = vec![0x7F];
        x.extend(props(&[0x26, 0x26]));
        v.push(fr(5, &carry(c, x.len() as u32, &x)));
    }
    v
}

/// few frames that stand for the different ways through the decoder
fn selection() -> Vec<Frame> {
    let cat = wire::catalogue();
    let pick = |kind: u8, v: u8, nth: usize| {
        cat.iter().filter(|f| f.bytes[0] >> 4 == kind && f.version == v).nth(nth).unwrap().clone()
    };
    let cr = crooked();
    let mut s = vec![
        pick(1, 5, 1),
        pick(1, 4, 0),
        pick(2, 5, 1),
        pick(3, 5, 1),
        pick(3, 4, 0),
        pick(4, 5, 0),
        pick(8, 5, 1),
        pick(11, 3, 0),
        pick(12, 4, 0),
        fr(4, &[0x40, 0x02, 0xBE, 0xEF]),
        fr(5, &[0xE0, 0x00]),
    ];
    for i in [1, 2, 6, 14, 17, 19, 20, 28, 31, 36, 37] {
        s.push(cr[i].clone());
    }
    for (k, c) in CARRIERS.iter().enumerate() {
        if matches!(c.name, "will" | "PUBLISH" | "PUBACK" | "SUBSCRIBE") {
            s.push(fr(5, &carry(c, 2, &[0x7F, 0x00])));
            s.push(fr(5, &carry(c, 200, &[])));
            let _ = k;
        }
    }
    s
}

fn known(g: &Got) -> String {
    match g {
        Ok(p) => {
            let s = short(p);
            s.chars().take(220).collect()
        }
        Err(e) => format!("error: {e}"),
    }
}

fn same_got(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// Decodes the stream on one decoder and each packet on a decoder of its own.
/// What must happen for the complete packets, and for a final incomplete one.
fn check_stream(b: &[u8], version: &dyn Fn(usize) -> u8, cx: &mut Cx) -> Out {
    let steps = spec::stream(b, version);
    let max = steps.len() + 2;
    let mut dec = decoder(b.len().clamp(1, 8192), b);
    let d = drive(&mut dec, version, max);
    compare_steps(b, &steps, &d, version, cx)
}

fn compare_steps(b: &[u8], steps: &[Step], d: &Driven, version: &dyn Fn(usize) -> u8, cx: &mut Cx) -> Out {
    let mut h = 7u64;
    trace::model_start(0x5354_524D);
    for (i, s) in steps.iter().enumerate() {
        let v = version(i);
        match s {
            Step::Frame { start, end, verdict } => {
                let Some(g) = d.results.get(i) else {
                    return Err(Fail::new(format!(
                        "the decoder ended after {} packets, packet {i} (bytes {start}..{end}) is still there: {}",
                        d.results.len(),
                        hexs(b)
                    )));
                };
                let alone = first(&b[*start..*end], v);
                if !same_got(g, &alone) {
                    return Err(Fail::new(format!(
                        "packet {i} (bytes {start}..{end}, version {v}) in the stream gives\n  {}\nbut on its own\n  {}\nstream {}",
                        known(g),
                        known(&alone),
                        hexs(b)
                    )));
                }
                trace::push(mix(h ^ matches!(verdict, Verdict::Reject(_)) as u64 ^ (b[*start] as u64) << 8));
                h = mix(h ^ got_hash(g));
                cx.count(if g.is_ok() { "packets delivered" } else { "packets rejected and skipped" });
            }
            Step::Truncated { start } => {
                match d.results.get(i) {
                    None => {
                        return Err(Fail::new(format!(
                            "no error was reported for the packet cut short at offset {start}: {}",
                            hexs(b)
                        )))
                    }
                    Some(Ok(p)) => {
                        return Err(Fail::new(format!(
                            "the packet starting at offset {start} is cut short but decodes to {}\nstream {}",
                            short(p),
                            hexs(b)
                        )))
                    }
                    Some(Err(_)) => {}
                }
                if d.results.len() > i + 1 || !d.ended {
                    return Err(Fail::new(format!(
                        "after the packet cut short at offset {start} the decoder still reports data: {}",
                        hexs(b)
                    )));
                }
                trace::push(mix(h ^ 0x7777));
                cx.count("truncated packets refused");
                cx.outcome(mix(h ^ 2));
                return Ok(());
            }
            Step::Unframable { start } => {
                if let Some(Ok(p)) = d.results.get(i) {
                    return Err(Fail::new(format!(
                        "the length at offset {start} is malformed but the packet decodes to {}\nstream {}",
                        short(p),
                        hexs(b)
                    )));
                }
                cx.count("malformed lengths");
                return Ok(());
            }
        }
    }
    if d.results.len() > steps.len() || !d.ended {
        return Err(Fail::new(format!(
            "after the last of {} packets the decoder reports more data ({:?}): {}",
            steps.len(),
            d.results.get(steps.len()).map(known),
            hexs(b)
        )));
    }
    cx.outcome(h);
    Ok(())
}

const SENTINELS: [(u8, [u8; 4], usize); 3] =
    [(4, [0x40, 0x02, 0xBE, 0xEF], 4), (4, [0xC0, 0x00, 0, 0], 2), (4, [0x40, 0x02, 0xCA, 0xFE], 4)];

fn concat(fs: &[&Frame]) -> (Vec<u8>, Vec<u8>) {
    let mut b = vec![];
    let mut v = vec![];
    for f in fs {
        b.extend_from_slice(&f.bytes);
        v.push(f.version);
    }
    (b, v)
}

fn version_of(v: &[u8]) -> impl Fn(usize) -> u8 + '_ {
    move |i| v.get(i).copied().unwrap_or(4)
}

fn sentinels(b: &mut Vec<u8>, v: &mut Vec<u8>) {
    for (w, x, n) in &SENTINELS {
        b.extend_from_slice(&x[..*n]);
        v.push(*w);
    }
}

fn run_stream(b: &[u8], v: &[u8], cx: &mut Cx) -> Out {
    cx.describe(|| format!("stream {}\nversions per call {v:?}, then 4", hexs(b)));
    check_stream(b, &version_of(v), cx)?;
    cx.sample(|| {
        let h: String = hexs(b).chars().take(200).collect();
        format!("versions {v:?}: {h}")
    });
    Ok(())
}

pub fn c06(quick: bool) -> Vec<Run> {
    let sel = Arc::new(selection());
    let cr = Arc::new({
        let mut x = crooked();
        x.extend(wire::catalogue());
        x
    });
    let cr2 = cr.clone();
    let n = sel.len();
    vec![
        Run::new(
            "frames",
            "every frame of the deviating writer, accepted or rejected, followed by three marker packets",
            if quick { 2 } else { 3 },
            |ch, cx| {
                let f = wire::frame(ch, true, false);
                let mut b = f.bytes;
                let mut v = vec![f.version];
                sentinels(&mut b, &mut v);
                run_stream(&b, &v, cx)
            },
        ),
        Run::new(
            "exits",
            "marker, any of the crooked and catalogue packets, markers, under each of the three versions",
            0,
            move |ch, cx| {
                let f = &cr[ch.pick(cr.len())];
                let mut b = vec![0x40, 0x02, 0x12, 0x34];
                let mut v = vec![4, [f.version, 5, 4, 3][ch.pick(4)]];
                b.extend_from_slice(&f.bytes);
                sentinels(&mut b, &mut v);
                run_stream(&b, &v, cx)
            },
        ),
        Run::new("pairs", "every ordered pair of crooked and catalogue packets, then the markers", 0, move |ch, cx| {
            let (mut b, mut v) = concat(&[&cr2[ch.pick(cr2.len())], &cr2[ch.pick(cr2.len())]]);
            sentinels(&mut b, &mut v);
            run_stream(&b, &v, cx)
        }),
        Run::new(
            "sequences",
            format!(
                "every sequence of {} packets out of {n} that stand for the ways through the decoder, then a marker",
                if quick { 3 } else { 4 }
            ),
            0,
            move |ch, cx| {
                let fs: Vec<&Frame> = (0..if quick { 3 } else { 4 }).map(|_| &sel[ch.pick(n)]).collect();
                let (mut b, v) = concat(&fs);
                b.extend([0x40, 0x02, 0xCA, 0xFE]);
                run_stream(&b, &v, cx)
            },
        ),
        Run::new(
            "short",
            "every packet with one of 31 first bytes and up to two body bytes, then the markers, versions 5, 4, 3",
            0,
            |ch, cx| {
                let version = [5u8, 4, 3][ch.pick(3)];
                let n = ch.pick(3);
                let mut b = vec![FIRST[ch.pick(31)], n as u8];
                for _ in 0..n {
                    b.push(ch.pick(256) as u8);
                }
                let mut v = vec![version];
                sentinels(&mut b, &mut v);
                run_stream(&b, &v, cx)
            },
        ),
        Run::new("mutants", "every catalogue packet with one body byte replaced by any value, then the markers", 0, {
            let cat = Arc::new(wire::catalogue());
            move |ch, cx| {
                let f = &cat[ch.pick(cat.len())];
                let Header::Ok { hdr, .. } = spec::header(&f.bytes) else { return Ok(()) };
                if hdr >= f.bytes.len() {
                    return Ok(());
                }
                let mut b = f.bytes.clone();
                let i = hdr + ch.pick(b.len() - hdr);
                b[i] = ch.pick(256) as u8;
                let mut v = vec![f.version];
                sentinels(&mut b, &mut v);
                run_stream(&b, &v, cx)
            }
        }),
        Run::new("other-shapes", "every subset of the properties of every section, lists, repeated properties, every CONNECT flag byte, texts in every text field, catalogue packets with one byte replaced, then the markers", 0, {
            let cat = Arc::new(wire::catalogue());
            move |ch, cx| {
                let f = other_frame(ch, &cat, if quick { 40 } else { 300 });
                let mut b = f.bytes;
                let mut v = vec![f.version];
                sentinels(&mut b, &mut v);
                run_stream(&b, &v, cx)
            }
        }),
        Run::new("huge", format!("{HUGE}; accepted, refused at the first byte, or refused at the first field; then the markers"), 0, move |ch, cx| {
            let (mut b, version) = huge_frame(ch, quick);
            match ch.pick(3) {
                0 => {}
                1 => b[0] = [0x36u8, 0x41, 0x80, 0x00][ch.pick(4)],
                _ => {
                    // a message id and an undefined code, a topic that is no text, an unknown property
                    b[0] = [0x40u8, 0x30, 0xE0][ch.pick(3)];
                    let Header::Ok { hdr, .. } = spec::header(&b) else { return Ok(()) };
                    b[hdr..hdr + 4].copy_from_slice(&[0x00, 0x02, 0xFF, 0xFF]);
                    if b[0] == 0xE0 {
                        b[hdr] = 0x7F;
                    }
                }
            }
            let mut v = vec![version];
            sentinels(&mut b, &mut v);
            run_stream(&b, &v, cx)
        }),
        Run::new("huge-refused", "packets of 2^k - 1, 2^k, 2^k + 1 bytes for k from 20 to 28 that are refused at the first byte, the first field or never, then the markers", 0, move |ch, cx| {
            let n = ((1usize << (20 + ch.pick(9))) - 1 + ch.pick(3)).min(MAXVAR as usize);
            let mut b = vec![[0x36u8, 0x40, 0x30][ch.pick(3)]];
            put_var(&mut b, n as u32);
            let hdr = b.len();
            b.resize(hdr + n, 0xC0);
            let refused = b[0] != 0x30;
            b[hdr..hdr + 3].copy_from_slice(if !refused { &[0, 1, b'a'] } else { &[0, 1, 0x7F] });
            let mut v = vec![5];
            sentinels(&mut b, &mut v);
            run_stream(&b, &v, cx)
        }),
        Run::new("source-values", format!("{SOURCE}; then the markers"), if quick { 1 } else { 2 }, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            let mut b = f.bytes;
            let mut v = vec![f.version];
            sentinels(&mut b, &mut v);
            run_stream(&b, &v, cx)
        }),
        Run::new("long", "streams of 300 to 3000 copies of each of the selected packets, larger than any buffer; as many copies as any number in the source says", 0, {
            let sel = Arc::new(selection());
            move |ch, cx| {
                let f = &sel[ch.pick(sel.len())];
                let mut n = vec![300usize, 1000, 3000];
                n.extend(src::ints(32, 70_000).iter().map(|x| *x as usize + 1));
                let k = n[ch.pick(n.len())];
                let mut b = vec![];
                for _ in 0..k {
                    b.extend_from_slice(&f.bytes);
                }
                let alone = first(&f.bytes, f.version);
                let mut dec = imp(|| PacketDecoder::from_stream(&b[..]));
                let v = f.version;
                let d = drive(&mut dec, |_| v, k + 1);
                cx.describe(|| format!("{k} copies of {} as version {v}", hexs(&f.bytes)));
                if d.results.len() != k || !d.ended {
                    return Err(Fail::new(format!(
                        "{k} copies of {} gave {} results",
                        hexs(&f.bytes),
                        d.results.len()
                    )));
                }
                for (i, g) in d.results.iter().enumerate() {
                    if !same_got(g, &alone) {
                        return Err(Fail::new(format!("copy {i} of {} gave {}", hexs(&f.bytes), known(g))));
                    }
                }
                cx.add("packets delivered", k as u64);
                Ok(())
            }
        }),
    ]
}

/// offsets worth a cut or a failure in n bytes that are too many to try them all
fn spots(n: usize) -> Vec<usize> {
    let mut s = vec![
        0,
        1,
        2,
        3,
        7,
        n / 3,
        n / 2,
        n / 4096 * 4096,
        n / 65536 * 65536,
        n.saturating_sub(3),
        n.saturating_sub(2),
        n.saturating_sub(1),
        n,
    ];
    s.retain(|x| *x <= n);
    s.sort();
    s.dedup();
    s
}

/// every offset of n bytes, or the ones worth a try when they are many
fn some_spot(ch: &mut Ch, n: usize) -> usize {
    if n <= 320 {
        return ch.pick(n + 1);
    }
    let mut s = spots(n);
    // and both ends
    s.extend(8..48);
    s.extend((n - 40..n - 3).rev());
    s.sort();
    s.dedup();
    s[ch.pick(s.len())]
}

pub const SOURCE: &str = "every field of every frame of the deviating writer with every number, text and length that the source of the crate names (one less, one more)";

pub fn c07(quick: bool) -> Vec<Run> {
    let all = Arc::new({
        let mut x = wire::catalogue();
        x.extend(crooked());
        x
    });
    let all2 = all.clone();
    let all3 = all.clone();
    let mut v = vec![
        Run::new("cuts", "every frame of the deviating writer, a marker before or not, cut after every byte", if quick { 1 } else { 2 }, |ch, cx| {
            let f = wire::frame(ch, false, false);
            let mut b = vec![];
            let mut v = vec![];
            if ch.pick(2) == 1 {
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                v.push(4);
            }
            b.extend_from_slice(&f.bytes);
            v.push(f.version);
            // every cut for ordinary frames, both ends and some of the middle of the very long ones
            let n = b.len();
            let cut = if n <= 700 { ch.pick(n + 1) } else { let k = ch.pick(400); if k < 200 { k } else { n - (k - 200) } };
            b.truncate(cut);
            run_stream(&b, &v, cx)
        }),
        Run::new("pair-cuts", "every ordered pair of catalogue and crooked packets, the second cut after every byte", 0, move |ch, cx| {
            let (f, g) = (&all[ch.pick(all.len())], &all[ch.pick(all.len())]);
            let (mut b, v) = concat(&[f, g]);
            let cut = f.bytes.len() + ch.pick(g.bytes.len() + 1);
            b.truncate(cut);
            run_stream(&b, &v, cx)
        }),
        Run::new("other-versions", "every catalogue and crooked packet under each version, cut after every byte", 0, move |ch, cx| {
            let f = &all2[ch.pick(all2.len())];
            let v = [3u8, 4, 5, 0, 255][ch.pick(5)];
            let mut b = f.bytes.clone();
            b.truncate(ch.pick(b.len() + 1));
            run_stream(&b, &[v], cx)
        }),
        Run::new("other-shapes", "every subset of the properties of every section, lists, repeated properties, every CONNECT flag byte, texts in every text field, catalogue packets with one byte replaced, each cut after every byte", 0, {
            let cat = Arc::new(wire::catalogue());
            move |ch, cx| {
                let f = other_frame(ch, &cat, if quick { 12 } else { 60 });
                let mut b = f.bytes;
                b.truncate(ch.pick(b.len() + 1));
                run_stream(&b, &[f.version], cx)
            }
        }),
        Run::new("huge", format!("{HUGE}; cut at the start, a third, the half, the last 4096 and 65536 boundary and the last bytes"), 0, move |ch, cx| {
            let (mut b, v) = huge_frame(ch, quick);
            let s = spots(b.len());
            b.truncate(s[ch.pick(s.len())]);
            run_stream(&b, &[v], cx)
        }),
        Run::new("source-values", format!("{SOURCE}; cut after every byte"), 0, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            let mut b = f.bytes;
            b.truncate(some_spot(ch, b.len()));
            run_stream(&b, &[f.version], cx)
        }),
        Run::new("announced", "every first byte with every length form that announces more than follows, 0 to 40 body bytes; also every length the source names", 0, move |ch, cx| {
            let first = FIRST[ch.pick(31)];
            let mut n = vec![1u32, 2, 3, 4, 5, 10, 127, 128, 300, 16383, 16384, 70000, 2097151, 2097152, MAXVAR];
            n.extend(src::ints(6, MAXVAR).iter().filter(|x| !quick || **x > 300));
            let n = n[ch.pick(n.len())];
            let m = ch.pick(41.min(n as usize));
            let fill = ch.pick(4);
            let mut b = vec![first];
            put_var(&mut b, n);
            for i in 0..m {
                b.push([0u8, 1, 0x26, (i + 1) as u8][fill]);
            }
            run_stream(&b, &[[5u8, 4, 3][ch.pick(3)]], cx)
        }),
        Run::new("one-by-one", "every catalogue and crooked packet cut after every byte, delivered one byte per read, or every read (the last too) interrupted first, capacities 1, 3, 8192", 0, move |ch, cx| {
            let f = &all3[ch.pick(all3.len())];
            let mut b = f.bytes.clone();
            b.truncate(ch.pick(b.len() + 1));
            let cap = [1usize, 3, 8192][ch.pick(3)];
            let (single, interrupted) = [(true, false), (true, true), (false, true)][ch.pick(3)];
            let v = [f.version];
            let ver = version_of(&v);
            let mut s = Src::new(&b);
            s.single = single;
            s.intr_all = interrupted;
            let steps = spec::stream(&b, &ver);
            let mut dec = decoder(cap, s);
            let d = drive(&mut dec, &ver, steps.len() + 2);
            cx.describe(|| format!("capacity {cap}, one byte per read {single}, interrupted {interrupted}, {}", hexs(&b)));
            compare_steps(&b, &steps, &d, &ver, cx)
        }),
    ];
    {
        v.push(Run::new(
            "large",
            "PUBLISH packets of 5000 to 20000 bytes cut at every byte near the buffer boundaries and every 97th",
            0,
            |ch, cx| {
                let n = [5000usize, 8190, 8192, 8200, 16384, 20000][ch.pick(6)];
                let mut body = b"\0\x03a/b\0".to_vec();
                while body.len() < n {
                    body.push((body.len() % 253) as u8);
                }
                let b0 = super::decode::finish(0x30, &body);
                let cuts: Vec<usize> = (0..b0.len())
                    .filter(|c| c % 97 == 0 || c % 4096 < 24 || c % 4096 > 4070 || *c + 30 > b0.len())
                    .collect();
                let mut b = b0;
                b.truncate(cuts[ch.pick(cuts.len())]);
                run_stream(&b, &[5], cx)
            },
        ));
    }
    v
}

/// a stream and the versions of its calls
type Stream = (Vec<u8>, Vec<u8>);

/// streams of two or three packets for the transport checks
fn streams() -> Vec<Stream> {
    let all: Vec<Frame> = {
        let mut x = wire::catalogue();
        x.extend(crooked());
        x
    };
    let mut out = vec![];
    for (i, f) in all.iter().enumerate() {
        let (mut b, mut v) = concat(&[f, &all[(i * 7 + 3) % all.len()]]);
        b.extend([0x40, 0x02, 0xBE, 0xEF]);
        v.push(4);
        out.push((b, v));
    }
    // and a truncated one
    for f in all.iter().take(40) {
        let (mut b, v) = concat(&[f, f]);
        let n = b.len();
        b.truncate(n - (f.bytes.len() / 2).max(1));
        out.push((b, v));
    }
    out
}

fn same_driven(a: &Driven, b: &Driven) -> bool {
    a.ended == b.ended
        && a.results.len() == b.results.len()
        && a.results.iter().zip(&b.results).all(|(x, y)| same_got(x, y))
}

fn reference(b: &[u8], v: &[u8]) -> Driven {
    let mut dec = decoder(b.len().max(1), b);
    drive(&mut dec, version_of(v), b.len() + 2)
}

/// the same stream through this source and capacity must give the reference results
fn check_transport(b: &[u8], v: &[u8], cap: usize, src: Src, want: &Driven, how: &str, cx: &mut Cx) -> Out {
    cx.describe(|| format!("{how}, capacity {cap}\nstream {}\nversions {v:?}", hexs(b)));
    let mut dec = decoder(cap, src);
    let got = drive(&mut dec, version_of(v), b.len() + 2);
    if !same_driven(&got, want) {
        let i = got.results.iter().zip(&want.results).position(|(x, y)| !same_got(x, y));
        return Err(Fail::new(format!(
            "{how}, capacity {cap}: {} results, ended {}; delivered in one piece {} results, ended {}; first difference: {:?}\nstream {}",
            got.results.len(),
            got.ended,
            want.results.len(),
            want.ended,
            i.map(|i| (known(&got.results[i]), known(&want.results[i]))),
            hexs(b)
        )));
    }
    let mut h = mix(cap as u64);
    for g in &got.results {
        h = mix(h ^ got_hash(g));
    }
    for x in how.bytes() {
        h = mix(h ^ x as u64);
    }
    cx.outcome(h);
    trace::model_start(h);
    trace::push(mix(h));
    cx.sample(|| {
        let s: String = hexs(b).chars().take(120).collect();
        format!("{how}, capacity {cap}: {s} -> {} results", got.results.len())
    });
    Ok(())
}

const CAPS: [usize; 8] = [1, 2, 3, 5, 8, 16, 64, 8192];

/// packets with a payload or a list far larger than a buffer
fn large_streams() -> Vec<Stream> {
    let mut out = vec![];
    for n in [300usize, 8170, 8192, 16384, 20_000, 70_000] {
        let data: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
        let text = |n: usize| gen::fill("big", n.min(65535)).into_bytes();
        let lp = |x: &[u8]| [&[(x.len() >> 8) as u8, x.len() as u8][..], x].concat();
        let mut frames: Vec<(u8, Vec<u8>)> = vec![];
        frames.push((4, super::decode::finish(0x30, &[&lp(b"a/b")[..], &data].concat())));
        frames.push((4, super::decode::finish(0x3D, &[&lp(&text(n))[..], &[1, 2], &data].concat())));
        let p = [&[0x1F][..], &lp(&text(n))].concat();
        frames.push((5, carry(&CARRIERS[4], p.len() as u32, &p)));
        let p: Vec<u8> = (0..n / 9)
            .flat_map(|i| [0x26, 0, 2, b'k', b'a' + (i % 7) as u8, 0, 2, b'v', b'a' + (i % 23) as u8])
            .collect();
        frames.push((5, carry(&CARRIERS[3], p.len() as u32, &p)));
        let l: Vec<u8> =
            (0..n / 7).flat_map(|i| [0, 4, b'a', b'b', b'/', b'a' + (i % 23) as u8, (i % 3) as u8]).collect();
        frames.push((4, super::decode::finish(0x82, &[&[0, 9][..], &l].concat())));
        let c: Vec<u8> = (0..n).map(|i| [0u8, 1, 2, 0x80][i % 4]).collect();
        frames.push((4, super::decode::finish(0x90, &[&[0, 9][..], &c].concat())));
        // refused at its start, skipped to its end
        frames.push((4, super::decode::finish(0x36, &data)));
        frames.push((5, super::decode::finish(0x40, &[&[0, 1, 0x7F][..], &data].concat())));
        for (v, f) in frames {
            out.push(([&f[..], &[0x40, 0x02, 0xBE, 0xEF]].concat(), vec![v, 4]));
        }
    }
    out
}

pub fn c08(quick: bool) -> Vec<Run> {
    let st = Arc::new(streams());
    let (s1, s2, s3, s4, s5) = (st.clone(), st.clone(), st.clone(), st.clone(), st.clone());
    let mut runs = vec![
        Run::new("single-bytes", "every stream one byte per read, with and without an interruption before every read, 8 capacities", 0, move |ch, cx| {
            let (b, v) = &s1[ch.pick(s1.len())];
            let cap = CAPS[ch.pick(8)];
            let mut src = Src::new(b);
            src.single = ch.pick(2) == 1;
            src.intr_all = ch.pick(2) == 1;
            let how = format!("single {} interrupted {}", src.single, src.intr_all);
            check_transport(b, v, cap, src, &reference(b, v), &how, cx)
        }),
        Run::new("one-cut", "every stream split in two reads at every offset, 8 capacities", 0, move |ch, cx| {
            let (b, v) = &s2[ch.pick(s2.len())];
            let cap = CAPS[ch.pick(8)];
            let cuts = [ch.pick(b.len())];
            let mut src = Src::new(b);
            src.cuts = &cuts;
            check_transport(b, v, cap, src, &reference(b, v), &format!("split at {}", cuts[0]), cx)
        }),
        Run::new("one-interrupt", "every stream with a read interrupted once, or three times in a row, at every offset, split there or not, 8 capacities", 0, move |ch, cx| {
            let (b, v) = &s3[ch.pick(s3.len())];
            let cap = CAPS[ch.pick(8)];
            let at = ch.pick(b.len() + 1);
            let n = [1, 3][ch.pick(2)];
            let cuts = [at];
            let intr = vec![at; n];
            let mut src = Src::new(b);
            src.intr = &intr;
            // an interruption inside a run of bytes shows only if the read stops there
            src.cuts = &cuts;
            check_transport(b, v, cap, src, &reference(b, v), &format!("interrupted {n} times at {at}"), cx)
        }),
        Run::new("straddle", "one packet placed at every offset across the default buffer boundary of 8192 bytes, after a PUBLISH or many small packets", 0, {
            let all = Arc::new({
                let mut x = wire::catalogue();
                x.extend(crooked());
                x
            });
            move |ch, cx| {
                let f = &all[ch.pick(all.len())];
                let k = 1 + ch.pick(f.bytes.len().min(40) + 4);
                let start = 8192 - k;
                let mut b = vec![];
                let mut v = vec![];
                if ch.pick(2) == 0 {
                    // one PUBLISH that ends where the packet starts
                    let mut body = b"\0\x01t".to_vec();
                    body.resize(start - 3, 0x55);
                    b = super::decode::finish(0x30, &body);
                    v.push(4);
                } else {
                    if start % 2 == 1 {
                        b.extend([0xC0, 0x80, 0x00]);
                        v.push(4);
                    }
                    while b.len() < start {
                        b.extend([0xC0, 0x00]);
                        v.push(4);
                    }
                }
                b.extend_from_slice(&f.bytes);
                v.push(f.version);
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                v.push(4);
                let want = reference(&b, &v);
                let src = Src::new(&b);
                cx.describe(|| format!("packet {} at offset {start}", hexs(&f.bytes)));
                let mut dec = imp(|| PacketDecoder::from_stream(src));
                let got = drive(&mut dec, version_of(&v), b.len() + 2);
                if !same_driven(&got, &want) {
                    return Err(Fail::new(format!("packet {} at offset {start} of the stream: results differ from those without a buffer boundary", hexs(&f.bytes))));
                }
                check_transport(&b, &v, 8192, Src::new(&b), &want, &format!("at {start}"), cx)
            }
        }),
        Run::new("chunks", "every stream in reads of at most k bytes for every k from 2 to 70, uninterrupted, interrupted before every read or before every second, 8 capacities", 0, {
            let st = st.clone();
            move |ch, cx| {
                let (b, v) = &st[ch.pick(st.len())];
                let cap = CAPS[ch.pick(8)];
                let k = 2 + ch.pick(69);
                let cuts: Vec<usize> = (1..).map(|i| i * k).take_while(|c| *c < b.len()).collect();
                let m = ch.pick(3);
                let intr: Vec<usize> = cuts.iter().step_by(m.max(1)).copied().collect();
                let mut src = Src::new(b);
                src.cuts = &cuts;
                if m > 0 {
                    src.intr = &intr;
                }
                check_transport(b, v, cap, src, &reference(b, v), &format!("reads of {k} bytes, interruptions {m}"), cx)
            }
        }),
        Run::new("large", "packets of 300 to 70000 bytes of several shapes in reads of 22 sizes, interrupted or not, 7 capacities up to 100000", 0, {
            let st = Arc::new(large_streams());
            move |ch, cx| {
                const K: [usize; 22] = [1, 2, 3, 7, 64, 100, 255, 256, 500, 536, 1000, 1024, 1448, 1460, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 1 << 20];
                let (b, v) = &st[ch.pick(st.len())];
                let cap = [8192usize, 1, 16, 100, 4096, 65536, 100_000][ch.pick(7)];
                let k = K[ch.pick(22)];
                let mut src = Src::new(b);
                src.chunk = k;
                src.intr_all = ch.pick(2) == 1;
                check_transport(b, v, cap, src, &reference(b, v), &format!("reads of {k} bytes"), cx)
            }
        }),
        Run::new("other-shapes", "every subset of the properties of every section, lists, repeated properties, every CONNECT flag byte, texts in every text field, catalogue packets with one byte replaced, each in single bytes or in reads of 2, 3 or 7 bytes, interrupted or not, capacities 1, 3, 8192", 0, {
            let cat = Arc::new(wire::catalogue());
            move |ch, cx| {
                let f = other_frame(ch, &cat, if quick { 40 } else { 300 });
                let mut b = f.bytes;
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                let v = [f.version, 4];
                let cap = [1usize, 3, 8192][ch.pick(3)];
                let k = [1usize, 2, 3, 7][ch.pick(4)];
                let mut src = Src::new(&b);
                src.chunk = k;
                src.intr_all = ch.pick(2) == 1;
                check_transport(&b, &v, cap, src, &reference(&b, &v), &format!("reads of {k} bytes"), cx)
            }
        }),
        Run::new("huge", format!("{HUGE}; in reads of 1000, 65536 or 2^20 bytes, interrupted or not, capacities 16, 8192, 1000000"), 0, move |ch, cx| {
            let (mut b, version) = huge_frame(ch, quick);
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let v = [version, 4];
            let cap = [16usize, 8192, 1_000_000][ch.pick(3)];
            let k = [1000usize, 65536, 1 << 20][ch.pick(3)];
            let mut src = Src::new(&b);
            src.chunk = k;
            src.intr_all = ch.pick(2) == 1;
            check_transport(&b, &v, cap, src, &reference(&b, &v), &format!("reads of {k} bytes"), cx)
        }),
        Run::new("source-values", format!("{SOURCE}; in reads of 1, 3, 1000 bytes or all, interrupted or not, capacities 1, 3, 8192"), 0, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            let mut b = f.bytes;
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let v = [f.version, 4];
            let cap = [1usize, 3, 8192][ch.pick(3)];
            let k = [1usize, 3, 1000, 1 << 20][ch.pick(4)];
            let mut src = Src::new(&b);
            src.chunk = k;
            src.intr_all = ch.pick(2) == 1;
            check_transport(&b, &v, cap, src, &reference(&b, &v), &format!("reads of {k} bytes"), cx)
        }),
        Run::new("source-reads", "packets of 300 to 70000 bytes of several shapes in reads and capacities of as many bytes as any number in the source says; a first read of that many bytes; that many interruptions in a row", 0, {
            let st = Arc::new(large_streams().into_iter().step_by(if quick { 3 } else { 1 }).collect::<Vec<_>>());
            move |ch, cx| {
                let (b, v) = &st[ch.pick(st.len())];
                let mut n = vec![1usize];
                n.extend(src::ints(2, 100_000).iter().map(|x| *x as usize));
                let k = n[ch.pick(n.len())];
                let cuts = [k];
                let half = [b.len() / 2];
                let intr = vec![half[0]; k.min(5000)];
                let mut src = Src::new(b);
                let mut cap = 8192;
                match ch.pick(5) {
                    0 => src.chunk = k,
                    1 => {
                        src.chunk = k;
                        src.intr_all = true;
                    }
                    2 => cap = k,
                    3 => src.cuts = &cuts,
                    _ => {
                        src.cuts = &half;
                        src.intr = &intr;
                    }
                }
                check_transport(b, v, cap, src, &reference(b, v), &format!("reads by {k}"), cx)
            }
        }),
        Run::new("writer", "every frame of the deviating writer, one byte per read with interruptions, capacities 1, 3, 8192", 2, |ch, cx| {
            let f = wire::frame(ch, false, false);
            let mut b = f.bytes;
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let v = [f.version, 4];
            let cap = [1usize, 3, 8192][ch.pick(3)];
            let mut src = Src::new(&b);
            src.single = true;
            src.intr_all = true;
            check_transport(&b, &v, cap, src, &reference(&b, &v), "single bytes with interruptions", cx)
        }),
    ];
    {
        runs.push(Run::new(
            "two-cuts",
            "every stream split at every pair of offsets, capacities 1, 3, 8192",
            0,
            move |ch, cx| {
                let (b, v) = &s4[ch.pick(s4.len())];
                let cap = [8192, 3, 1][ch.pick(3)];
                let i = ch.pick(b.len());
                let cuts = [i, i + ch.pick(b.len() - i)];
                let mut src = Src::new(b);
                src.cuts = &cuts;
                check_transport(b, v, cap, src, &reference(b, v), &format!("split at {cuts:?}"), cx)
            },
        ));
        runs.push(Run::new(
            "two-interrupts",
            "every stream with reads interrupted at every pair of offsets",
            0,
            move |ch, cx| {
                let (b, v) = &s5[ch.pick(s5.len())];
                let cap = [8192, 1][ch.pick(2)];
                let i = ch.pick(b.len() + 1);
                let cuts = [i, i + ch.pick(b.len() + 1 - i)];
                let mut src = Src::new(b);
                src.cuts = &cuts;
                src.intr = &cuts;
                check_transport(b, v, cap, src, &reference(b, v), &format!("interrupted at {cuts:?}"), cx)
            },
        ));
    }
    let t1 = st.clone();
    runs.push(Run::new("three-cuts", "every stream split at every three offsets", 0, move |ch, cx| {
        let (b, v) = &t1[ch.pick(t1.len())];
        let i = ch.pick(b.len());
        let j = i + ch.pick(b.len() - i);
        let cuts = [i, j, j + ch.pick(b.len() - j)];
        let mut src = Src::new(b);
        src.cuts = &cuts;
        check_transport(b, v, 8192, src, &reference(b, v), &format!("split at {cuts:?}"), cx)
    }));
    if !quick {
        let t2 = Arc::new(large_streams());
        runs.push(Run::new(
            "large-one-cut",
            "packets of 300 to 20000 bytes split in two reads at every offset, interrupted there or not",
            0,
            move |ch, cx| {
                let few: Vec<&Stream> = t2.iter().filter(|s| s.0.len() < 25_000).collect();
                let (b, v) = few[ch.pick(few.len())];
                let cuts = [ch.pick(b.len())];
                let mut src = Src::new(b);
                src.cuts = &cuts;
                if ch.pick(2) == 1 {
                    src.intr = &cuts;
                }
                check_transport(
                    b,
                    v,
                    [8192usize, 64][ch.pick(2)],
                    src,
                    &reference(b, v),
                    &format!("split at {}", cuts[0]),
                    cx,
                )
            },
        ));
    }
    runs
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionAborted,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
];

#[allow(clippy::too_many_arguments)]
fn check_fault(
    b: &[u8],
    v: &[u8],
    cap: usize,
    at: usize,
    kind: ErrorKind,
    forever: bool,
    single: bool,
    direct: bool,
    cx: &mut Cx,
) -> Out {
    check_fault_by(b, v, cap, at, kind, forever, single, false, direct, cx)
}

#[allow(clippy::too_many_arguments)]
fn check_fault_by(
    b: &[u8],
    v: &[u8],
    cap: usize,
    at: usize,
    kind: ErrorKind,
    forever: bool,
    single: bool,
    interrupted: bool,
    direct: bool,
    cx: &mut Cx,
) -> Out {
    let how = format!(
        "{kind:?} at offset {at} {}, capacity {cap}{}{}",
        if forever { "for good" } else { "once" },
        if single { ", one byte per read" } else { "" },
        if interrupted { ", every read interrupted first" } else { "" }
    );
    cx.describe(|| format!("{how}\nstream {}\nversions {v:?}", hexs(b)));
    let ver = version_of(v);
    let steps = spec::stream(b, &ver);
    let mut src = Src::new(b);
    src.single = single;
    src.intr_all = interrupted;
    src.fail = Some((at, kind, forever));
    let mut dec = decoder(cap, src);
    let bad = |w: String| Err(Fail::new(format!("{how}: {w}\nstream {}", hexs(b))));
    let mut i = 0;
    let mut stopped = 0;
    let mut h = mix(at as u64 ^ (cap as u64) << 20 ^ (forever as u64) << 40);
    let limit = b.len() + 4;
    let mut calls = 0;
    // complete packets before the failure
    loop {
        let next = steps.get(i);
        let more = imp(|| dec.has_more());
        if !more {
            // fine only if everything before the failure was delivered
            let here = match next {
                None => b.len(),
                Some(Step::Frame { start, .. } | Step::Truncated { start } | Step::Unframable { start }) => *start,
            };
            if here < at {
                return bad(format!("the decoder reports no more data at offset {here}"));
            }
            stopped += 1;
            if forever || here >= b.len() || stopped > 1 {
                if !forever && here < b.len() {
                    return bad(format!("after the failure at a packet boundary passed, the decoder still reports no data at offset {here}"));
                }
                if direct && forever && imp(|| dec.decode_packet(ver(i))).is_ok() {
                    return bad("decoding on a failed source returned a packet".into());
                }
                cx.count("ended between packets");
                break;
            }
            // a passing failure between two packets loses nothing
            cx.count("resumed between packets");
            continue;
        }
        calls += 1;
        if calls > limit {
            return bad(format!("the decode loop does not end ({calls} calls)"));
        }
        let g = imp(|| dec.decode_packet(ver(i)));
        match next {
            Some(Step::Frame { start, end, .. }) if *end <= at || *start > at || (*start == at && stopped > 0) => {
                let alone = first(&b[*start..*end], ver(i));
                if !same_got(&g, &alone) {
                    return bad(format!(
                        "packet {i} (bytes {start}..{end}) gave {}, on its own {}",
                        known(&g),
                        known(&alone)
                    ));
                }
                h = mix(h ^ got_hash(&g));
                cx.count("packets delivered around a failure");
            }
            _ => {
                // the failure is inside this packet (or it is incomplete)
                if let Ok(p) = g {
                    return bad(format!("packet {i} could not be read completely but decodes to {}", short(&p)));
                }
                h = mix(h ^ 1);
                cx.count("failures inside a packet reported");
                // whatever follows a failure inside a packet: no panic, no endless loop
                while imp(|| dec.has_more()) {
                    calls += 1;
                    if calls > limit {
                        return bad(format!("the decode loop does not end ({calls} calls)"));
                    }
                    let _ = imp(|| dec.decode_packet(4));
                }
                break;
            }
        }
        i += 1;
    }
    cx.outcome(h);
    trace::model_start(mix(at as u64));
    trace::push(h);
    cx.sample(|| {
        let s: String = hexs(b).chars().take(120).collect();
        format!("{how}: {s}")
    });
    Ok(())
}

/// Failures that pass, each at its offset. Those between packets cost nothing (with `direct` the decoder is
/// asked for a packet without asking has_more() first and reports them); the first one inside a packet is
/// an error.
fn check_faults(b: &[u8], v: &[u8], fails: &[(usize, ErrorKind)], direct: bool, cx: &mut Cx) -> Out {
    cx.describe(|| format!("failures {fails:?}, direct {direct}\nstream {}\nversions {v:?}", hexs(b)));
    let ver = version_of(v);
    let steps = spec::stream(b, &ver);
    let mut src = Src::new(b);
    src.fails = fails;
    let mut dec = decoder(8192, src);
    let bad = |w: String| Err(Fail::new(format!("failures {fails:?}, direct {direct}: {w}\nstream {}", hexs(b))));
    let mut h = mix(fails.len() as u64 ^ (direct as u64) << 8);
    trace::model_start(h);
    for (i, s) in steps.iter().enumerate() {
        let (start, end) = match s {
            Step::Frame { start, end, .. } => (*start, *end),
            Step::Truncated { start } | Step::Unframable { start } => (*start, usize::MAX),
        };
        let here = fails.iter().filter(|f| f.0 == start).count();
        let inside = end == usize::MAX || fails.iter().any(|f| f.0 > start && f.0 < end);
        for k in 0..here {
            if direct {
                if let Ok(p) = imp(|| dec.decode_packet(ver(i))) {
                    return bad(format!("failure {k} before packet {i} is hidden, it decodes to {}", short(&p)));
                }
            } else if imp(|| dec.has_more()) {
                // a decoder that does not see failures here has to report them when decoding
                if let Ok(p) = imp(|| dec.decode_packet(ver(i))) {
                    return bad(format!("failure {k} before packet {i} is hidden, it decodes to {}", short(&p)));
                }
            }
        }
        if !direct && !imp(|| dec.has_more()) {
            return bad(format!("the failures before packet {i} have passed but no data is reported"));
        }
        let g = imp(|| dec.decode_packet(ver(i)));
        if inside {
            if let Ok(p) = g {
                return bad(format!("packet {i} could not be read completely but decodes to {}", short(&p)));
            }
            cx.count("failures inside a packet reported");
            break;
        }
        let alone = first(&b[start..end], ver(i));
        if !same_got(&g, &alone) {
            return bad(format!("packet {i} gives {} but on its own {}", known(&g), known(&alone)));
        }
        h = mix(h ^ got_hash(&g) ^ here as u64);
        trace::push(h);
        cx.count("packets delivered between failures");
    }
    cx.outcome(h);
    Ok(())
}

pub fn c09(quick: bool) -> Vec<Run> {
    let st = Arc::new(streams());
    let (s1, s2) = (st.clone(), st.clone());
    let cat = Arc::new(wire::catalogue());
    vec![
        Run::new("offsets", "every stream failing at every offset, once or for good, capacities 1, 7, 8192, whole and single-byte reads", 0, move |ch, cx| {
            let (b, v) = &s1[ch.pick(s1.len())];
            let at = ch.pick(b.len() + 1);
            let cap = [8192usize, 7, 1][ch.pick(3)];
            let forever = ch.pick(2) == 0;
            let single = ch.pick(2) == 1;
            check_fault(b, v, cap, at, KINDS[(at + cap) % 9], forever, single, true, cx)
        }),
        Run::new("several", "every stream failing up to four times: once or twice at the first and at the second packet boundary, then once at any offset", 0, {
            let st = st.clone();
            move |ch, cx| {
                let (b, v) = &st[ch.pick(st.len())];
                let ver = version_of(v);
                let ends: Vec<usize> = spec::stream(b, &ver).iter().filter_map(|s| if let Step::Frame { end, .. } = s { Some(*end) } else { None }).collect();
                let mut fails = vec![];
                for e in std::iter::once(0).chain(ends.iter().copied()).take(2) {
                    for _ in 0..ch.pick(3) {
                        fails.push((e, KINDS[(e + fails.len()) % 9]));
                    }
                }
                let from = fails.last().map(|f| f.0).unwrap_or(0);
                fails.push((from + ch.pick(b.len() + 1 - from), ErrorKind::WouldBlock));
                let direct = ch.pick(2) == 1;
                check_faults(b, v, &fails, direct, cx)
            }
        }),
        Run::new("interrupted", "every catalogue packet (and the one behind it) failing at every offset, once or for good, every read, the failing one too, interrupted first; whole or single-byte reads", 0, {
            let cat = cat.clone();
            move |ch, cx| {
                let f = &cat[ch.pick(cat.len())];
                let mut b = f.bytes.clone();
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                let at = ch.pick(b.len() + 1);
                let kind = KINDS[ch.pick(9)];
                let (forever, single) = (ch.pick(2) == 0, ch.pick(2) == 1);
                check_fault_by(&b, &[f.version, 4], [8192, 3][at % 2], at, kind, forever, single, true, true, cx)
            }
        }),
        Run::new("kinds", "every error kind at every offset of the catalogue packets", 0, move |ch, cx| {
            let f = &cat[ch.pick(cat.len())];
            let mut b = f.bytes.clone();
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let at = ch.pick(b.len() + 1);
            let kind = KINDS[ch.pick(9)];
            check_fault(&b, &[f.version, 4], 8192, at, kind, ch.pick(2) == 0, false, true, cx)
        }),
        Run::new("other-shapes", "every subset of the properties of every section, lists, repeated properties, every CONNECT flag byte, texts in every text field, catalogue packets with one byte replaced, each failing at every offset, once or for good", 0, {
            let cat = Arc::new(wire::catalogue());
            move |ch, cx| {
                let f = other_frame(ch, &cat, if quick { 12 } else { 60 });
                let mut b = f.bytes;
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                let at = ch.pick(b.len() + 1);
                check_fault(&b, &[f.version, 4], [8192usize, 7][at % 2], at, KINDS[at % 9], ch.pick(2) == 0, false, false, cx)
            }
        }),
        Run::new("huge", format!("{HUGE}; failing at the start, a third, the half, the last 4096 and 65536 boundary and the last bytes, once or for good"), 0, move |ch, cx| {
            let (mut b, version) = huge_frame(ch, quick);
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let s = spots(b.len() - 4);
            let at = s[ch.pick(s.len())];
            check_fault(&b, &[version, 4], 8192, at, KINDS[at % 9], ch.pick(2) == 0, false, false, cx)
        }),
        Run::new("source-values", format!("{SOURCE}; failing at every offset, once or for good"), 0, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            let mut b = f.bytes;
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let at = some_spot(ch, b.len());
            check_fault(&b, &[f.version, 4], 8192, at, KINDS[at % 9], ch.pick(2) == 0, false, false, cx)
        }),
        Run::new("large", if quick { "packets of 300 to 20000 bytes failing near every buffer boundary and at every 61st byte, once or for good" } else { "packets of 300 to 70000 bytes failing near every buffer boundary and at every 61st byte, once or for good" }, 0, {
            let st = Arc::new(large_streams().into_iter().filter(|s| !quick || s.0.len() < 25_000).collect::<Vec<_>>());
            move |ch, cx| {
                let (b, v) = &st[ch.pick(st.len())];
                let near: Vec<usize> = (0..=b.len()).filter(|c| c % 61 == 0 || (c + 3) % 4096 < 8 || c + 12 > b.len() || *c < 16).collect();
                let at = near[ch.pick(near.len())];
                let cap = [8192usize, 64][ch.pick(2)];
                check_fault(b, v, cap, at, KINDS[at % 9], ch.pick(2) == 0, false, true, cx)
            }
        }),
        Run::new("capacities", "every stream failing at every offset for good, all capacities", 0, move |ch, cx| {
            let (b, v) = &s2[ch.pick(s2.len())];
            let at = ch.pick(b.len() + 1);
            check_fault(b, v, CAPS[ch.pick(8)], at, ErrorKind::WouldBlock, true, false, false, cx)
        }),
        Run::new("writer", "every frame of the deviating writer failing at every offset, once or for good", if quick { 1 } else { 2 }, |ch, cx| {
            let f = wire::frame(ch, false, false);
            let mut b = f.bytes;
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let n = b.len();
            let at = if n <= 400 { ch.pick(n + 1) } else { let k = ch.pick(300); if k < 150 { k } else { n - (k - 150) } };
            check_fault(&b, &[f.version, 4], 8192, at, ErrorKind::TimedOut, ch.pick(2) == 0, false, false, cx)
        }),
    ]
}

fn run_any(b: &[u8], version: impl Fn(usize) -> u8, cx: &mut Cx) -> Out {
    let mut dec = decoder(b.len().clamp(1, 8192), b);
    let d = drive(&mut dec, version, b.len());
    if !d.ended {
        return Err(Fail::new(format!(
            "the decode loop made {} calls on {} bytes and still reports data: {}",
            d.results.len(),
            b.len(),
            hexs(b)
        )));
    }
    let mut h = 3;
    for g in &d.results {
        h = mix(h ^ g.is_ok() as u64 ^ (if let Ok(p) = g { super::encode::kind_of(p) } else { 99 }) << 3);
        cx.count(if g.is_ok() { "packets" } else { "errors" });
    }
    cx.outcome(h ^ b.first().copied().unwrap_or(0) as u64);
    trace::model_start(b.len() as u64);
    for (i, g) in d.results.iter().enumerate() {
        trace::push(mix((i as u64) << 8 ^ g.is_ok() as u64 ^ (b[0] as u64) << 20));
    }
    Ok(())
}

/// Anything that takes the square of the number of items would take hours here.
fn huge(ch: &mut Ch, cx: &mut Cx) -> Out {
    let kind = ch.pick(9);
    let broken = ch.pick(2) == 1;
    let n = 1_000_000usize;
    let mut items: Vec<u8> = vec![];
    for i in 0..n {
        let d = |k: u32| b'a' + (i / 26usize.pow(k) % 26) as u8;
        match kind {
            0 => items.extend([0x26, 0, 1, b'k', 0, 0]),
            1 => items.extend([0x26, 0, 5, d(0), d(1), d(2), d(3), d(4), 0, 0]),
            2 => items.extend([0x0B, 1 + (i % 100) as u8]),
            3 => items.extend([0, 5, d(0), d(1), d(2), d(3), d(4), 1]),
            4 => items.extend([0, 5, d(0), d(1), d(2), d(3), d(4)]),
            5 => items.extend([0, 1, 2, 0x80]),
            6 => items.extend([0, 0x11, 0x80, 0x87]),
            7 => items.extend([d(0), d(1), d(2), d(3)]),
            // many packets rather than many items
            _ => items.extend([0xC0, 0x00, 0x40, 0x02, 0x00, 0x01]),
        }
    }
    if broken {
        match kind {
            0..=2 => items.extend([0x7F]),
            3 | 4 => items.extend([0, 9]),
            5 | 6 => items.extend([0x7F]),
            _ => {}
        }
    }
    let (head, v): (Vec<u8>, u8) = match kind {
        0..=2 => {
            let mut h = vec![0, 1, b't'];
            put_var(&mut h, items.len() as u32);
            (h, 5)
        }
        3..=5 => (vec![0, 1], 4),
        6 => (vec![0, 1, 0], 5),
        _ => (vec![0, 1, b't'], 4),
    };
    let first_byte = [0x30, 0x30, 0x30, 0x82, 0xA2, 0x90, 0xB0, if broken { 0x36 } else { 0x30 }, 0][kind];
    let b = if kind == 8 {
        if broken {
            items.truncate(items.len() - 1)
        }
        items
    } else {
        super::decode::finish(first_byte, &[head, items].concat())
    };
    cx.describe(|| format!("kind {kind}, malformed {broken}: {}", hexs(&b)));
    let mut dec = decoder(8192, &b[..]);
    let mut calls = 0usize;
    while imp(|| dec.has_more()) {
        let g = imp(|| dec.decode_packet(v));
        calls += 1;
        if calls > b.len() {
            return Err(Fail::new(format!("the decode loop does not end (kind {kind}, malformed {broken})")));
        }
        if let (Ok(p), true) = (g, kind < 8) {
            let e = imp(|| p.encode(v));
            cx.add("megabytes encoded", e.map(|e| e.len() as u64).unwrap_or(0) >> 20);
        }
    }
    cx.add("megabytes decoded", b.len() as u64 >> 20);
    cx.outcome(mix(kind as u64 * 2 + broken as u64));
    Ok(())
}

/// gives up on a codec that asks a failing source again and again
struct Patient<'a>(Src<'a>);

impl<'a> std::io::Read for Patient<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.reads > 100_000 {
            panic!("the source was asked 100000 times without the call coming back");
        }
        self.0.read(buf)
    }
}

/// C10 on a source that fails: every call returns, and the loop ends once the source has failed for good
fn run_failing(b: &[u8], v: u8, src: Src, cap: usize, cx: &mut Cx) -> Out {
    let forever = src.fail.map_or(false, |f| f.2);
    let mut dec = decoder(cap, Patient(src));
    let mut h = 5;
    let mut calls = 0;
    let mut quiet = 0;
    // a failure between two packets may look like the end once
    while quiet < 3 {
        if !imp(|| dec.has_more()) {
            quiet += 1;
            // a packet asked for all the same is an error or comes out of what passed meanwhile
            let g = imp(|| dec.decode_packet(v));
            h = mix(h ^ g.is_ok() as u64);
            continue;
        }
        calls += 1;
        if calls > b.len() + 4 {
            return Err(Fail::new(format!(
                "the decode loop made {calls} calls on {} bytes of a source that fails{} and still reports data: {}",
                b.len(),
                if forever { " for good" } else { "" },
                hexs(b)
            )));
        }
        let g = imp(|| dec.decode_packet(v));
        h = mix(h ^ g.is_ok() as u64 ^ (if let Ok(p) = &g { super::encode::kind_of(p) } else { 99 }) << 3);
    }
    cx.outcome(h);
    Ok(())
}

pub fn c10(quick: bool) -> Vec<Run> {
    let cat = Arc::new({
        let mut x = wire::catalogue();
        x.extend(crooked());
        x
    });
    let (c1, c2, c3) = (cat.clone(), cat.clone(), cat.clone());
    vec![
        Run::new(
            "bytes",
            if quick { "every stream of at most two bytes, and of three bytes, versions 3, 4, 5" } else { "every stream of at most four bytes with one of 31 first bytes (three with any), versions 3, 4, 5" },
            0,
            move |ch, cx| {
                let v = [5u8, 4, 3][ch.pick(3)];
                let n = ch.pick(if quick { 4 } else { 5 });
                let mut b = vec![];
                for i in 0..n {
                    b.push(if i == 0 && n >= 4 { FIRST[ch.pick(31)] } else if i == 1 && n >= 4 { [0u8, 1, 2, 3, 5, 0x7F, 0x80, 0x81, 0xFF][ch.pick(9)] } else { ch.pick(256) as u8 });
                }
                cx.describe(|| format!("version {v} bytes {}", hexs(&b)));
                run_any(&b, |_| v, cx)
            },
        ),
        Run::new("versions", "every catalogue and crooked packet under all 256 version numbers", 0, move |ch, cx| {
            let f = &c1[ch.pick(c1.len())];
            let v = ch.pick(256) as u8;
            cx.describe(|| format!("version {v} bytes {}", hexs(&f.bytes)));
            run_any(&f.bytes, |_| v, cx)
        }),
        Run::new("mutants", "every catalogue and crooked packet with any one byte replaced by any value, the version changing from call to call", 0, move |ch, cx| {
            let f = &c2[ch.pick(c2.len())];
            let mut b = f.bytes.clone();
            let i = ch.pick(b.len());
            b[i] = ch.pick(256) as u8;
            b.extend([0x40, 0x02, 0xBE, 0xEF]);
            let v = f.version;
            cx.describe(|| format!("version {v} bytes {}", hexs(&b)));
            run_any(&b, |i| if i == 0 { v } else { 3 + (i % 3) as u8 }, cx)
        }),
        Run::new("misframed", "every catalogue packet started at every offset inside it, versions 3, 4, 5, followed by another packet", 0, move |ch, cx| {
            let f = &c3[ch.pick(c3.len())];
            let mut b = f.bytes[ch.pick(f.bytes.len())..].to_vec();
            let v = [5u8, 4, 3][ch.pick(3)];
            b.extend_from_slice(&c3[ch.pick(c3.len())].bytes);
            cx.describe(|| format!("version {v} bytes {}", hexs(&b)));
            run_any(&b, |_| v, cx)
        }),
        Run::new("failing", "every catalogue and crooked packet followed by another one, from a source that fails at every offset with every kind of error, once or for good, whole or single-byte reads: every call returns and the loop ends", 0, {
            let cat = cat.clone();
            move |ch, cx| {
                let f = &cat[ch.pick(cat.len())];
                let mut b = f.bytes.clone();
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                let at = ch.pick(b.len() + 1);
                let kind = KINDS[ch.pick(9)];
                let mut src = Src::new(&b);
                let forever = ch.pick(2) == 0;
                src.fail = Some((at, kind, forever));
                src.single = ch.pick(2) == 1;
                cx.describe(|| format!("version {} {kind:?} at offset {at} {} bytes {}", f.version, if forever { "for good" } else { "once" }, hexs(&b)));
                run_failing(&b, f.version, src, [8192usize, 3][at % 2], cx)
            }
        }),
        Run::new("interrupted", "every catalogue and crooked packet followed by another one, from a source whose reads are interrupted before every byte, before every read, or twice at one offset", 0, {
            let cat = cat.clone();
            move |ch, cx| {
                let f = &cat[ch.pick(cat.len())];
                let mut b = f.bytes.clone();
                b.extend([0x40, 0x02, 0xBE, 0xEF]);
                let how = ch.pick(b.len() + 3);
                let twice = [how.saturating_sub(2); 2];
                let mut src = Src::new(&b);
                match how {
                    0 => src.intr_all = true,
                    1 => {
                        src.intr_all = true;
                        src.single = true
                    }
                    _ => {
                        src.cuts = &twice[..1];
                        src.intr = &twice
                    }
                }
                cx.describe(|| format!("version {} interrupted ({how}) bytes {}", f.version, hexs(&b)));
                run_failing(&b, f.version, src, 8192, cx)
            }
        }),
        Run::new("frames", "every frame of the deviating writer, decoded until the end", if quick { 2 } else { 3 }, |ch, cx| {
            let f = wire::frame(ch, true, false);
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            run_any(&f.bytes, |_| f.version, cx)
        }),
        Run::new("source-values", format!("{SOURCE}; decoded until the end under each version"), if quick { 1 } else { 2 }, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            let v = [f.version, 3, 4, 5, 0][ch.pick(5)];
            cx.describe(|| format!("version {v} bytes {}", hexs(&f.bytes)));
            run_any(&f.bytes, |_| v, cx)
        }),
        Run::new("source-encode", "every field of every packet value with every number, text and length that the source of the crate names, the rest within the deviation bound, encoded for versions 0, 3, 4, 5, 255", if quick { 1 } else { 2 }, |ch, cx| {
            let Some((p, v)) = gen::source_packet(ch, false) else { return Ok(()) };
            let v = [v, 3, 4, 5, 0, 255][ch.pick(6)];
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            let r = imp(|| p.encode(v));
            cx.outcome(mix(r.map(|b| b.len() as u64).unwrap_or(u64::MAX)));
            Ok(())
        }),
        Run::new("huge", "packets of 4 to 20 megabytes made of the smallest possible items (user properties of one name or of all different names, subscriptions, topics, return codes, payload), accepted or malformed at the end: decoded, and encoded again, within the time limit of one execution", 0, |ch, cx| {
            huge(ch, cx)
        }),
        Run::new("encode", "every packet value within the deviation bound encoded for its version; every single deviation for all 256 versions", if quick { 2 } else { 3 }, |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Dev { wide: true });
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            let r = imp(|| p.encode(v));
            cx.count(if r.is_ok() { "encoded" } else { "refused" });
            cx.outcome(mix(r.map(|b| b.len() as u64).unwrap_or(u64::MAX)));
            Ok(())
        }),
        Run::new("encode-versions", "every single deviation of every packet value encoded for all 256 versions", 1, |ch, cx| {
            let v = ch.pick(256) as u8;
            let kind = ch.pick(15);
            let full = ch.pick(2) == 1;
            let p = gen::packet_of(ch, Mode::Dev { wide: false }, kind, full, 5);
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            let r = imp(|| p.encode(v));
            cx.outcome(mix(r.map(|b| b.len() as u64).unwrap_or(u64::MAX)));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------- C19

const MEM_CONST: isize = 256 << 10;
const MEM_PER_BYTE: isize = 256;
const RETAINED: isize = 96 << 10;

/// delivers `data` and watches the memory held while it does
struct Meter<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    mark: isize,
    worst: Rc<Cell<(isize, usize)>>,
    delivered: Rc<Cell<usize>>,
}

impl<'a> Meter<'a> {
    fn look(&self) {
        let used = alloc::peak_since(self.mark);
        let over = used - MEM_PER_BYTE * self.pos as isize;
        if over > self.worst.get().0 {
            self.worst.set((over, self.pos))
        }
    }
}

impl<'a> Read for Meter<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.look();
        let n = buf.len().min(self.data.len() - self.pos).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.delivered.set(self.pos);
        Ok(n)
    }
}

fn check_memory(b: &[u8], version: &dyn Fn(usize) -> u8, chunk: usize, cap: usize, cx: &mut Cx) -> Out {
    cx.describe(|| format!("capacity {cap}, {chunk} bytes per read, bytes {}", hexs(b)));
    let worst = Rc::new(Cell::new((isize::MIN, 0)));
    let delivered = Rc::new(Cell::new(0));
    let mark = alloc::mark();
    let src = Meter { data: b, pos: 0, chunk, mark, worst: worst.clone(), delivered: delivered.clone() };
    // 0, 1, 2: the ways to construct a decoder that leave the buffer to the library or the standard
    let mut dec = match cap {
        0 => imp(|| PacketDecoder::from_stream(src)),
        1 => imp(|| PacketDecoder::from_bufreader(BufReader::new(src))),
        2 => imp(|| PacketDecoder::new(ByteReader::new(BufReader::new(src)))),
        _ => decoder(cap, src),
    };
    let mut calls = 0;
    let mut kept = 0isize;
    while calls <= b.len() && imp(|| dec.has_more()) {
        let g = imp(|| dec.decode_packet(version(calls)));
        drop(g);
        calls += 1;
        let used = alloc::peak_since(mark);
        let over = used - MEM_PER_BYTE * delivered.get() as isize;
        if over > worst.get().0 {
            worst.set((over, delivered.get()))
        }
        kept = kept.max(alloc::live_since(mark));
    }
    let (over, at) = worst.get();
    if over > MEM_CONST {
        return Err(Fail::new(format!(
            "{} bytes were held when {at} bytes had been received (allowed: {MEM_CONST} + {MEM_PER_BYTE} per byte): {}",
            over + MEM_PER_BYTE * at as isize,
            hexs(b)
        )));
    }
    if kept > RETAINED {
        return Err(Fail::new(format!(
            "after {calls} packets were returned and dropped the decoder still holds {kept} bytes"
        )));
    }
    cx.outcome(mix((over / 64) as u64 ^ (b.first().copied().unwrap_or(0) as u64) << 40));
    trace::model_start(at as u64);
    trace::push(mix((over / 64) as u64));
    cx.count("streams measured");
    cx.sample(|| {
        let s: String = hexs(b).chars().take(100).collect();
        format!("{s}: at most {} bytes held, {at} received", over + MEM_PER_BYTE * at as isize)
    });
    Ok(())
}

const LENS: [u32; 16] =
    [0, 1, 2, 5, 100, 127, 128, 1000, 16383, 16384, 65535, 65536, 2_097_151, 2_097_152, 100_000_000, MAXVAR];

/// and every length that the source names
fn lens() -> Vec<u32> {
    let mut n = LENS.to_vec();
    n.extend(src::ints(129, MAXVAR).iter().filter(|x| !LENS.contains(x)));
    n
}

pub fn c19(quick: bool) -> Vec<Run> {
    let cat = Arc::new(wire::catalogue());
    let cr = Arc::new(crooked());
    vec![
        Run::new("announced", "every first byte x every announced remaining length of the boundary set and of the source x 0 to 64 delivered bytes of four shapes x versions x read sizes", 0, |ch, cx| {
            let v = [5u8, 4, 3][ch.pick(3)];
            let first = [0x00u8, 0x10, 0x20, 0x30, 0x32, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xA2, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x41, 0x80][ch.pick(19)];
            let n = lens();
            let n = n[ch.pick(n.len())];
            let m = [0usize, 1, 2, 3, 4, 5, 6, 8, 12, 16, 33, 64][ch.pick(12)];
            let fill = ch.pick(4);
            let mut b = vec![first];
            put_var(&mut b, n);
            for i in 0..m {
                b.push([0u8, 0xFF, 0x26, [0, 1, b'a', 0, 1, 0xFF, 0xFF, 0x7F][i % 8]][fill]);
            }
            let chunk = [usize::MAX, 1][ch.pick(2)];
            check_memory(&b, &|_| v, chunk, 8192, cx)
        }),
        Run::new("sections", "every property section x announced section length x announced packet length x nothing, one property or many delivered", 0, |ch, cx| {
            let c = &CARRIERS[ch.pick(14)];
            let n = lens();
            let (ln, pn) = match ch.pick(3) {
                0 => (LENS[ch.pick(16)], LENS[ch.pick(16)]),
                1 => (n[ch.pick(n.len())], MAXVAR),
                _ => (MAXVAR, n[ch.pick(n.len())]),
            };
            let mut b = c.before.to_vec();
            put_var(&mut b, pn);
            let p: Vec<u8> = match ch.pick(7) {
                0 => vec![],
                1 => vec![0x26, 0xFF, 0xFF],
                2 => vec![0x26, 0, 0, 0xFF, 0xFF, b'x'],
                3 => vec![0x1F, 0xFF, 0xFF],
                4 => vec![0x09, 0xFF, 0xFF],
                5 => vec![0x16, 0xFF, 0xFF],
                _ => {
                    let l = legal(c.ctx);
                    props(&l)
                }
            };
            b.extend(p);
            let mut x = vec![c.first];
            put_var(&mut x, ln);
            x.extend(b);
            check_memory(&x, &|_| 5, [usize::MAX, 1][ch.pick(2)], 8192, cx)
        }),
        Run::new("dense", "packets packed with the smallest possible items (properties, subscriptions, topics, codes), complete or cut short, up to 60000 bytes", 0, |ch, cx| {
            let n = [10usize, 100, 1000, 5000, 60000][ch.pick(5)];
            let v5 = ch.pick(2) == 0;
            let kind = ch.pick(8);
            let mut items = vec![];
            let mut i = 0u32;
            while items.len() < n {
                match kind {
                    0 => items.extend([0x26, 0, 0, 0, 0]),
                    1 => {
                        let k = i % 50000;
                        items.extend([0x26, 0, 3, b'a' + (k % 26) as u8, b'a' + (k / 26 % 26) as u8, b'a' + (k / 676 % 26) as u8, 0, 0])
                    }
                    2 => items.extend([0x0B, 1]),
                    3 => items.extend([0, 1, b'a', 0]),
                    4 => items.extend([0, 1, b'a']),
                    5 => items.push(0),
                    6 => items.push(0x11),
                    _ => items.push(b'x'),
                }
                i += 1;
            }
            let mut b = vec![];
            let first = match kind {
                0..=2 => {
                    b.extend([0, 1, b't']);
                    put_var(&mut b, items.len() as u32);
                    0x30
                }
                3 => { b.extend([0, 1]); if v5 { b.push(0) } 0x82 }
                4 => { b.extend([0, 1]); if v5 { b.push(0) } 0xA2 }
                5 => { b.extend([0, 1]); if v5 { b.push(0) } 0x90 }
                6 => { b.extend([0, 1]); if v5 { b.push(0) } 0xB0 }
                _ => { b.extend([0, 1, b't']); if v5 { b.push(0) } 0x30 }
            };
            b.extend(items);
            let mut x = vec![first];
            let full = b.len() as u32;
            match ch.pick(3) {
                0 => put_var(&mut x, full),
                1 => put_var(&mut x, full + 1000),
                _ => put_var(&mut x, MAXVAR),
            }
            x.extend(b);
            check_memory(&x, &|_| if v5 { 5 } else { 4 }, [usize::MAX, 1, 1000][ch.pick(3)], [8192usize, 16][ch.pick(2)], cx)
        }),
        Run::new("cuts", "every catalogue and crooked packet cut after every byte, with its length and with 268435455 announced", 0, {
            let (cat, cr) = (cat.clone(), cr.clone());
            move |ch, cx| {
                let i = ch.pick(cat.len() + cr.len());
                let f = if i < cat.len() { &cat[i] } else { &cr[i - cat.len()] };
                let Header::Ok { hdr, .. } = spec::header(&f.bytes) else { return Ok(()) };
                let mut b = vec![f.bytes[0]];
                if ch.pick(2) == 0 {
                    b.extend_from_slice(&f.bytes[1..hdr]);
                } else {
                    put_var(&mut b, MAXVAR);
                }
                let body = &f.bytes[hdr..];
                b.extend_from_slice(&body[..ch.pick(body.len() + 1)]);
                check_memory(&b, &|_| f.version, usize::MAX, 8192, cx)
            }
        }),
        Run::new("constructors", "every catalogue and crooked packet cut after every byte, and three copies, on a decoder from each of the three constructors", 0, {
            let (cat, cr) = (cat.clone(), cr.clone());
            move |ch, cx| {
                let i = ch.pick(cat.len() + cr.len());
                let f = if i < cat.len() { &cat[i] } else { &cr[i - cat.len()] };
                let cut = ch.pick(f.bytes.len() + 1);
                let b = if cut == 0 { f.bytes.repeat(3) } else { f.bytes[..cut].to_vec() };
                check_memory(&b, &|_| f.version, usize::MAX, ch.pick(3), cx)
            }
        }),
        Run::new("frames", "every frame of the deviating writer", if quick { 1 } else { 2 }, |ch, cx| {
            let f = wire::frame(ch, true, false);
            check_memory(&f.bytes, &|_| f.version, usize::MAX, 8192, cx)
        }),
        Run::new("source-values", format!("{SOURCE}; at most what was received is held"), if quick { 0 } else { 1 }, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            check_memory(&f.bytes, &|_| f.version, [usize::MAX, 1][ch.pick(2)], 8192, cx)
        }),
        Run::new("many", "30000 (thorough: 200000) copies of every catalogue and crooked packet on one decoder: nothing is kept", 0, move |ch, cx| {
            let i = ch.pick(cat.len() + cr.len());
            let f = if i < cat.len() { &cat[i] } else { &cr[i - cat.len()] };
            let n = if quick { 30_000 } else { 200_000 };
            let src = Loop { data: &f.bytes, pos: 0, left: n };
            cx.describe(|| format!("{n} copies of {} as version {}", hexs(&f.bytes), f.version));
            let mark = alloc::mark();
            let mut dec = imp(|| PacketDecoder::from_stream(src));
            let mut calls = 0usize;
            let mut kept = 0isize;
            let mut base = 0isize;
            while calls < 4 * n && imp(|| dec.has_more()) {
                drop(imp(|| dec.decode_packet(f.version)));
                calls += 1;
                let l = alloc::live_since(mark);
                if calls == 100 {
                    base = l;
                }
                kept = kept.max(l);
            }
            if calls > 100 && kept - base > 16 << 10 {
                return Err(Fail::new(format!("held {base} bytes after 100 packets but {kept} after {calls}: copies of {}", hexs(&f.bytes))));
            }
            cx.add("packets measured", calls as u64);
            cx.outcome(mix(base as u64 ^ (f.bytes[0] as u64) << 32));
            Ok(())
        }),
        Run::new(
            "many-large",
            format!("{} copies of packets of 300 to 70000 bytes (payloads, topics, long and many properties, many topics, many codes, refused ones) on one decoder: nothing is kept", if quick { 1500 } else { 10_000 }),
            0,
            move |ch, cx| {
                static ALL: std::sync::OnceLock<Vec<Stream>> = std::sync::OnceLock::new();
                let all = ALL.get_or_init(large_streams);
                let (b, v) = &all[ch.pick(all.len())];
                let b = &b[..b.len() - 4];
                let n = if quick { 1500 } else { 10_000 };
                let src = Loop { data: b, pos: 0, left: n };
                cx.describe(|| format!("{n} copies of {} as version {}", hexs(b), v[0]));
                let mark = alloc::mark();
                let mut dec = imp(|| PacketDecoder::from_stream(src));
                let (mut calls, mut kept, mut base) = (0usize, 0isize, 0isize);
                while calls < 2 * n && imp(|| dec.has_more()) {
                    drop(imp(|| dec.decode_packet(v[0])));
                    calls += 1;
                    let l = alloc::live_since(mark);
                    if calls == 100 {
                        base = l;
                    }
                    kept = kept.max(l);
                }
                if calls > 100 && kept - base > 16 << 10 {
                    return Err(Fail::new(format!(
                        "held {base} bytes after 100 packets but {kept} after {calls}: copies of {}",
                        hexs(b)
                    )));
                }
                cx.add("packets measured", calls as u64);
                cx.outcome(mix(base as u64 ^ (b[0] as u64) << 32 ^ (b.len() as u64) << 40));
                Ok(())
            },
        ),
        Run::new(
            "numbered",
            format!("{} packets of each type with texts, names, topics, aliases and identifiers that never repeat, accepted, refused for their first byte, or under another version: nothing is kept", if quick { 20_000 } else { 300_000 }),
            0,
            move |ch, cx| {
                let kind = ch.pick(15);
                let how = ch.pick(4);
                let n = if quick { 20_000 } else { 300_000 };
                let mut stream = vec![];
                let mut v = 5;
                for i in 0..n {
                    let (p, w) = numbered(kind, i);
                    v = w;
                    let Ok(mut b) = imp(|| p.encode(w)) else { return Ok(()) };
                    match how {
                        0 => {}
                        // a first byte that is never right
                        1 => b[0] = if kind == 2 || kind == 3 { 0x36 } else { b[0] ^ 1 },
                        2 => {
                            // the last byte of the packet is not what it was
                            let l = b.len();
                            b[l - 1] ^= 0x80
                        }
                        _ => v = if w == 5 { 4 } else { 5 },
                    }
                    stream.extend_from_slice(&b);
                }
                cx.describe(|| format!("{n} packets of kind {kind}, variation {how}, version {v}, beginning {}", hexs(&stream[..stream.len().min(300)])));
                let mark = alloc::mark();
                let mut dec = imp(|| PacketDecoder::from_stream(&stream[..]));
                let (mut calls, mut base, mut kept, mut okay) = (0usize, 0isize, 0isize, 0u64);
                while calls <= n && imp(|| dec.has_more()) {
                    okay += imp(|| dec.decode_packet(v)).is_ok() as u64;
                    calls += 1;
                    let l = alloc::live_since(mark);
                    if calls == 100 {
                        base = l;
                    }
                    kept = kept.max(l);
                }
                if kept - base > 16 << 10 {
                    return Err(Fail::new(format!("held {base} bytes after 100 packets but {kept} after {calls} different packets of kind {kind} (variation {how}, {okay} accepted)")));
                }
                cx.add("different packets measured", calls as u64);
                cx.outcome(mix(base as u64 ^ (kind as u64) << 32 ^ (how as u64) << 40));
                Ok(())
            },
        ),
    ]
}

/// one of `n` numbered packets of a kind, no two with the same texts or numbers
fn numbered(kind: usize, i: usize) -> (MqttPacket, u8) {
    let t = |s: &str| format!("{s}{i}");
    let ups = || {
        let mut m = UserProperties::new();
        m.insert(format!("name{i}"), vec![format!("value{i}")]);
        m
    };
    let id = i as u16;
    let ack = || Some(ConfirmationProperties { reason_string: Some(t("reason")), user_properties: ups() });
    let p = match kind {
        0 | 1 => MqttPacket::Connect(ConnectPacket {
            client_id: t("client"),
            protocol_version: if kind == 0 { 5 } else { 4 },
            protocol_id: Protocol::Mqtt,
            clean_session: i % 2 == 0,
            keep_alive: id,
            user_name: Some(t("user")),
            password: Some(t("pass")),
            will: Some(LastWill {
                topic: Some(t("will")),
                payload: Some(t("p")),
                qos: 1,
                retain: false,
                properties: None,
            }),
            properties: if kind == 0 {
                Some(ConnectProperties {
                    session_expiry_interval: i as u32,
                    receive_maximum: id.max(1),
                    maximum_packet_size: Some(i as u32 + 1),
                    topic_alias_maximum: id,
                    request_response_information: false,
                    request_problem_information: true,
                    user_properties: ups(),
                    authentication_method: Some(t("m")),
                    authentication_data: Some(t("d")),
                })
            } else {
                None
            },
        }),
        2 | 3 => MqttPacket::Publish(PublishPacket {
            dup: false,
            qos: 1,
            retain: false,
            topic: t("topic/"),
            message_id: Some(id.max(1)),
            payload: t("payload").into_bytes(),
            properties: if kind == 2 {
                Some(PublishProperties {
                    payload_format_indicator: false,
                    message_expiry_interval: Some(i as u32),
                    content_type: Some(t("c")),
                    response_topic: Some(t("r")),
                    correlation_data: t("corr").into_bytes(),
                    subscription_identifiers: vec![1 + i as u32],
                    topic_alias: Some(id.max(1)),
                    user_properties: ups(),
                })
            } else {
                None
            },
        }),
        4..=7 => {
            let cmd = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp][kind - 4];
            let p = ConfirmationPacket {
                cmd,
                puback_reason_code: if kind <= 5 { Some(puback_codes()[i % 9].1.clone()) } else { None },
                pubcomp_reason_code: if kind > 5 { Some(pubcomp_codes()[i % 2].1.clone()) } else { None },
                properties: ack(),
                message_id: id.max(1),
            };
            match kind {
                4 => MqttPacket::Puback(p),
                5 => MqttPacket::Pubrec(p),
                6 => MqttPacket::Pubrel(p),
                _ => MqttPacket::Pubcomp(p),
            }
        }
        8 => MqttPacket::Subscribe(SubscribePacket {
            qos: 1,
            subscriptions: vec![Subscription {
                topic: t("filter/"),
                qos: QoS::QoS1,
                nl: false,
                rap: false,
                rh: Some(0),
            }],
            properties: Some(SubscribeProperties { subscription_identifier: 1 + i as u32, user_properties: ups() }),
            message_id: id.max(1),
        }),
        9 => MqttPacket::Suback(SubackPacket {
            reason_code: None,
            message_id: id.max(1),
            properties: ack(),
            granted_reason_codes: vec![suback_codes()[i % suback_codes().len()].1.clone()],
            granted: vec![],
        }),
        10 => MqttPacket::Unsubscribe(UnsubscribePacket {
            qos: 1,
            message_id: id.max(1),
            properties: Some(UnsubscribeProperties { user_properties: ups() }),
            unsubscriptions: vec![t("filter/")],
        }),
        11 => MqttPacket::Unsuback(UnsubackPacket {
            message_id: id.max(1),
            granted: vec![unsuback_codes()[i % unsuback_codes().len()].1.clone()],
            properties: ack(),
        }),
        12 => MqttPacket::Disconnect(DisconnectPacket {
            reason_code: Some(disconnect_codes()[i % disconnect_codes().len()].1.clone()),
            properties: Some(DisconnectProperties {
                session_expiry_interval: Some(i as u32),
                server_reference: Some(t("s")),
                reason_string: Some(t("w")),
                user_properties: ups(),
            }),
        }),
        13 => MqttPacket::Auth(AuthPacket {
            reason_code: auth_codes()[i % 3].1.clone(),
            properties: Some(AuthProperties {
                authentication_method: t("m"),
                authentication_data: Some(t("d")),
                reason_string: Some(t("w")),
                user_properties: ups(),
            }),
        }),
        _ => MqttPacket::Connack(ConnackPacket {
            return_code: None,
            reason_code: Some(0),
            session_present: false,
            properties: Some(ConnackProperties {
                assigned_client_identifier: Some(t("assigned")),
                server_reference: Some(t("ref")),
                response_information: Some(t("info")),
                reason_string: Some(t("why")),
                authentication_method: Some(t("m")),
                authentication_data: Some(t("d")),
                server_keep_alive: Some(id),
                session_expiry_interval: i as u32,
                maximum_packet_size: Some(1 + i as u32),
                topic_alias_maximum: id,
                user_properties: ups(),
                is_default: false,
                receive_maximum: id.max(1),
                maximum_qos: 2,
                retain_available: true,
                wildcard_subscription_available: true,
                subscription_identifiers_available: true,
                shared_subscription_available: true,
            }),
        }),
    };
    let v = if matches!(kind, 1 | 3) { 4 } else { 5 };
    (p, v)
}

struct Loop<'a> {
    data: &'a [u8],
    pos: usize,
    left: usize,
}
impl<'a> Read for Loop<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.left > 0 {
            let k = (buf.len() - n).min(self.data.len() - self.pos);
            buf[n..n + k].copy_from_slice(&self.data[self.pos..self.pos + k]);
            n += k;
            self.pos += k;
            if self.pos == self.data.len() {
                self.pos = 0;
                self.left -= 1;
            }
        }
        Ok(n)
    }
}

// ---------------------------------------------------------------------------------------------- C21

/// decodes through the `Packet` implementation of the type that `like` has
fn by_type(b: &[u8], v: u8, like: &MqttPacket) -> Got {
    imp(|| {
        let mut r = ByteReader::new(BufReader::new(b));
        let (len, fixed) = r.read_header()?;
        let r = &mut r;
        Ok(match like {
            MqttPacket::Connect(_) => MqttPacket::Connect(ConnectPacket::decode(r, fixed, len, v)?),
            MqttPacket::Connack(_) => MqttPacket::Connack(ConnackPacket::decode(r, fixed, len, v)?),
            MqttPacket::Subscribe(_) => MqttPacket::Subscribe(SubscribePacket::decode(r, fixed, len, v)?),
            MqttPacket::Suback(_) => MqttPacket::Suback(SubackPacket::decode(r, fixed, len, v)?),
            MqttPacket::Publish(_) => MqttPacket::Publish(PublishPacket::decode(r, fixed, len, v)?),
            MqttPacket::Puback(_) => MqttPacket::Puback(ConfirmationPacket::decode(r, fixed, len, v)?),
            MqttPacket::Pubrec(_) => MqttPacket::Pubrec(ConfirmationPacket::decode(r, fixed, len, v)?),
            MqttPacket::Pubrel(_) => MqttPacket::Pubrel(ConfirmationPacket::decode(r, fixed, len, v)?),
            MqttPacket::Pubcomp(_) => MqttPacket::Pubcomp(ConfirmationPacket::decode(r, fixed, len, v)?),
            MqttPacket::Unsubscribe(_) => MqttPacket::Unsubscribe(UnsubscribePacket::decode(r, fixed, len, v)?),
            MqttPacket::Unsuback(_) => MqttPacket::Unsuback(UnsubackPacket::decode(r, fixed, len, v)?),
            MqttPacket::Pingreq | MqttPacket::Pingresp => return Ok(like.clone()),
            MqttPacket::Disconnect(_) => MqttPacket::Disconnect(DisconnectPacket::decode(r, fixed, len, v)?),
            MqttPacket::Auth(_) => MqttPacket::Auth(AuthPacket::decode(r, fixed, len, v)?),
        })
    })
}

fn entry_points(b: &[u8], v: u8, cx: &mut Cx) -> Out {
    let want = first(b, v);
    let mut got: Vec<(&str, Got)> = vec![];
    got.push(("from_stream(Cursor)", imp(|| PacketDecoder::from_stream(Cursor::new(b)).decode_packet(v))));
    got.push(("from_stream(slice)", imp(|| PacketDecoder::from_stream(b).decode_packet(v))));
    got.push(("from_bufreader", imp(|| PacketDecoder::from_bufreader(BufReader::new(b)).decode_packet(v))));
    got.push(("new(ByteReader)", imp(|| PacketDecoder::new(ByteReader::new(BufReader::new(b))).decode_packet(v))));
    got.push((
        "after has_more",
        imp(|| {
            let mut d = PacketDecoder::from_stream(b);
            d.has_more();
            d.has_more();
            d.decode_packet(v)
        }),
    ));
    // a reader from which something was read before: it holds all, some or none of the packet
    for (before, cap) in [(1usize, 8192usize), (7, 9), (3, 8), (5, 5), (300, 301), (9000, 8192)] {
        if before > 300 && b.len() > 300 {
            continue;
        }
        let mut all = vec![0x36; before];
        all.extend_from_slice(b);
        got.push((
            "from_bufreader on a reader that was used before",
            imp(|| {
                let mut r = BufReader::with_capacity(cap, &all[..]);
                r.read_exact(&mut vec![0; before]).unwrap();
                PacketDecoder::from_bufreader(r).decode_packet(v)
            }),
        ));
        if before < 10 {
            got.push((
                "new on a ByteReader that was used before",
                imp(|| {
                    let mut r = ByteReader::new(BufReader::with_capacity(cap, &all[..]));
                    let _ = r.read_len(before as u32);
                    PacketDecoder::new(r).decode_packet(v)
                }),
            ));
            got.push((
                "a decoder whose reader was used before",
                imp(|| {
                    let mut d = PacketDecoder::from_bufreader(BufReader::with_capacity(cap, &all[..]));
                    let _ = d.reader.read_len(before as u32);
                    d.decode_packet(v)
                }),
            ));
        }
    }
    for (n, g) in &got {
        if !same_got(g, &want) {
            return Err(Fail::new(format!("{n} gives {}, another decoder {}: {}", known(g), known(&want), hexs(b))));
        }
    }
    if let Ok(p) = &want {
        // the decoder of the packet's own type, after the header was read
        let g = by_type(b, v, p);
        if !same_got(&g, &want) {
            return Err(Fail::new(format!(
                "the decoder of the packet type gives {}, the packet decoder {}: {}",
                known(&g),
                known(&want),
                hexs(b)
            )));
        }
        cx.count("decoders of the types agree");
    }
    cx.outcome(got_hash(&want) ^ v as u64);
    trace::model_start(b.len() as u64);
    trace::push(got_hash(&want));
    cx.count("all entry points agree");
    Ok(())
}

/// all packets decoded with one decoder must come out as with a fresh one for each
fn history(fs: &[(&[u8], u8)], cx: &mut Cx) -> Out {
    let mut b = vec![];
    let mut v = vec![];
    for (x, w) in fs {
        // only complete packets can be followed by another
        match spec::header(x) {
            Header::Ok { hdr, len, .. } if hdr + len == x.len() => {}
            _ => {
                cx.count("not a single complete packet");
                return Ok(());
            }
        }
        b.extend_from_slice(x);
        v.push(*w);
    }
    run_stream(&b, &v, cx)?;
    // what is remembered of earlier packets outside of a decoder shows in both decoders alike: where the result
    // is not what the reference model says, a process that has decoded nothing yet decides whether the history
    // is to blame
    let mut dec = decoder(b.len().clamp(1, 8192), &b[..]);
    for (x, w) in fs {
        let g = imp(|| dec.decode_packet(*w));
        blame(x, *w, &super::decode::verdict_of(x, *w).unwrap_or(Verdict::Any(0)), &g, &b)?;
    }
    Ok(())
}

fn blame(x: &[u8], v: u8, says: &Verdict, g: &Got, stream: &[u8]) -> Out {
    if let Judged::Bad(why) = judge(Part::Both, says, g) {
        if pristine(x, v).is_some_and(|h| h != got_hash(g)) {
            return Err(Fail::new(format!(
                "{} (version {v}): {why}\nbut it gives something else in a process that has decoded nothing before\nstream {}",
                hexs(x),
                hexs(stream)
            )));
        }
    }
    Ok(())
}

/// what each packet gives on a decoder of its own, under versions 3, 4 and 5
struct Alone {
    got: Vec<std::sync::OnceLock<[Got; 3]>>,
    own: Vec<usize>,
    says: Vec<Verdict>,
}

impl Alone {
    fn new(all: &[Frame]) -> Alone {
        Alone {
            says: all
                .iter()
                .map(|f| super::decode::verdict_of(&f.bytes, f.version).unwrap_or(Verdict::Any(0)))
                .collect(),
            got: all.iter().map(|_| std::sync::OnceLock::new()).collect(),
            own: all.iter().map(|f| (f.version as usize - 3).min(2)).collect(),
        }
    }
    fn get(&self, all: &[Frame], i: usize, v: usize) -> &Got {
        // on a thread that has decoded nothing else
        &self.got[i].get_or_init(|| {
            std::thread::scope(|s| {
                s.spawn(|| [3, 4, 5].map(|v| first(&all[i].bytes, v)))
                    .join()
                    .unwrap_or_else(|_| [3, 4, 5].map(|v| first(&all[i].bytes, v)))
            })
        })[v]
    }
}

/// one packet after the other on one decoder, each as on a decoder of its own and as the reference model says
fn after(all: &[Frame], alone: &Alone, h: &[usize], cx: &mut Cx) -> Out {
    let b: Vec<u8> = h.iter().flat_map(|i| all[*i].bytes.iter().copied()).collect();
    cx.describe(|| {
        format!("stream {}, versions {:?}", hexs(&b), h.iter().map(|i| all[*i].version).collect::<Vec<_>>())
    });
    let mut dec = decoder(8192, &b[..]);
    trace::model_start(0x5041_4952);
    for i in h {
        let f = &all[*i];
        if !imp(|| dec.has_more()) {
            return Err(Fail::new(format!("the decoder ended early: {}", hexs(&b))));
        }
        let g = imp(|| dec.decode_packet(f.version));
        let want = alone.get(all, *i, alone.own[*i]);
        if !same_got(&g, want) {
            return Err(Fail::new(format!(
                "{} (version {}) gives\n  {}\nand on its own\n  {}\nstream {}",
                hexs(&f.bytes),
                f.version,
                known(&g),
                known(want),
                hexs(&b)
            )));
        }
        blame(&f.bytes, f.version, &alone.says[*i], &g, &b)?;
        trace::push(mix(*i as u64));
    }
    if imp(|| dec.has_more()) {
        return Err(Fail::new(format!("after the last packet the decoder reports more data: {}", hexs(&b))));
    }
    cx.add("packets decoded after another", h.len() as u64);
    Ok(())
}

/// the history `times` times on one decoder
fn repeated(all: &[Frame], alone: &Alone, h: &[(usize, usize)], times: usize, cx: &mut Cx) -> Out {
    let mut b = vec![];
    for _ in 0..times {
        for (i, _) in h {
            b.extend_from_slice(&all[*i].bytes);
        }
    }
    let total = times * h.len();
    cx.describe(|| {
        format!(
            "{times} times (packet, version): {}",
            h.iter()
                .take(4)
                .map(|(i, v)| format!("{} / {}", hexs(&all[*i].bytes), v + 3))
                .collect::<Vec<_>>()
                .join("; ")
        )
    });
    let mut dec = decoder(b.len().clamp(1, 8192), &b[..]);
    trace::model_start(0x5245_5045);
    let mut d = 11u64;
    for k in 0..total {
        let (i, v) = h[k % h.len()];
        if !imp(|| dec.has_more()) {
            return Err(Fail::new(format!("the decoder ended after {k} of {total} packets")));
        }
        let g = imp(|| dec.decode_packet(v as u8 + 3));
        let want = alone.get(all, i, v);
        if !same_got(&g, want) {
            return Err(Fail::new(format!(
                "packet {k} ({}, version {}) after a history of {k} packets gives\n  {}\nbut on its own\n  {}",
                hexs(&all[i].bytes),
                v + 3,
                known(&g),
                known(want)
            )));
        }
        if k < 64 {
            d = mix(d ^ (i as u64) << 8 ^ v as u64);
            trace::push(d);
        }
    }
    if imp(|| dec.has_more()) {
        return Err(Fail::new(format!("after all {total} packets the decoder reports more data")));
    }
    cx.outcome(d);
    cx.add("packets decoded after a long history", total as u64);
    Ok(())
}

/// a source that does something else when its first `cut` bytes have been read
struct Meanwhile<'a> {
    data: &'a [u8],
    pos: usize,
    cut: usize,
    act: Option<&'a mut dyn FnMut()>,
}

impl Read for Meanwhile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.cut {
            if let Some(f) = self.act.take() {
                f();
            }
        }
        let end = if self.pos < self.cut { self.cut } else { self.data.len() };
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// what happens elsewhere while a decoder waits for bytes
enum Other {
    Decode(usize),
    Encode(MqttPacket, u8, Res<Vec<u8>>),
}

impl Other {
    /// does it, and says how the result differs from the one it has when nothing else goes on
    fn run(&self, all: &[Frame], alone: &Alone) -> Option<String> {
        match self {
            Other::Decode(j) => {
                let g = first(&all[*j].bytes, all[*j].version);
                let want = alone.get(all, *j, alone.own[*j]);
                (!same_got(&g, want))
                    .then(|| format!("{} gives {} instead of {}", hexs(&all[*j].bytes), known(&g), known(want)))
            }
            Other::Encode(p, v, want) => {
                let g = imp(|| encode_by_type(p, *v));
                let lv = if let MqttPacket::Connect(c) = p { c.protocol_version } else { *v };
                (!same_result(&g, want, lv)).then(|| {
                    format!(
                        "version {v} {} gives {} instead of {}",
                        short(p),
                        short(&g.map(|b| hexs(&b))),
                        short(&want.as_ref().map(|b| hexs(b)))
                    )
                })
            }
        }
    }
    fn text(&self, all: &[Frame]) -> String {
        match self {
            Other::Decode(j) => format!("decoding {} (version {})", hexs(&all[*j].bytes), all[*j].version),
            Other::Encode(p, v, _) => format!("encoding version {v} {}", short(p)),
        }
    }
}

pub fn c21(quick: bool) -> Vec<Run> {
    let all = Arc::new({
        let mut x = wire::catalogue();
        x.extend(crooked());
        x
    });
    let probes = Arc::new({
        let mut x: Vec<Frame> = wire::catalogue().into_iter().filter(|f| f.version != 3).collect();
        x.truncate(80);
        x
    });
    let sel = Arc::new(selection());
    let (a1, a2, a3) = (all.clone(), all.clone(), all.clone());
    // only single complete packets can be followed by another
    let all = Arc::new(
        all.iter()
            .filter(|f| matches!(spec::header(&f.bytes), Header::Ok { hdr, len, .. } if hdr + len == f.bytes.len()))
            .cloned()
            .collect::<Vec<_>>(),
    );
    let alone = Arc::new(Alone::new(&all));
    let np = probes.len();
    let p1 = probes.clone();
    let single =
        |f: &Frame| matches!(spec::header(&f.bytes), Header::Ok { hdr, len, .. } if hdr + len == f.bytes.len());
    let deviating = Arc::new({
        let mut x: Vec<Frame> = wire::all(1, |ch| wire::frame(ch, false, false)).into_iter().filter(single).collect();
        x.sort_by(|a, b| (a.version, &a.bytes).cmp(&(b.version, &b.bytes)));
        x.dedup_by(|a, b| a.version == b.version && a.bytes == b.bytes);
        x
    });
    let alone_dev = Arc::new(Alone::new(&deviating));
    // the second of a pair may have any size, the first is short unless the tier is thorough
    let firsts: Arc<Vec<usize>> =
        Arc::new((0..deviating.len()).filter(|i| !quick || deviating[*i].bytes.len() < 600).collect());
    let values: Arc<Vec<(MqttPacket, u8, Res<Vec<u8>>)>> = Arc::new(
        wire::all(1, |ch| gen::packet(ch, Mode::Dev { wide: false }))
            .into_iter()
            .map(|(p, v)| {
                let alone = std::thread::scope(|s| s.spawn(|| encode_by_type(&p, v)).join());
                // a panic here is found by the run
                let alone = alone.unwrap_or_else(|_| Ok(vec![]));
                (p, v, alone)
            })
            .filter(|(_, _, b)| b.as_ref().map(|b| b.len() < 600).unwrap_or(true))
            .collect(),
    );
    vec![
        Run::new("pairs", format!("every ordered pair out of {} packets with at most one deviation{}: the second is decoded as on its own and as the reference model says", firsts.len(), if quick { " and fewer than 600 bytes" } else { "" }), 0, {
            let (d, alone, fi) = (deviating.clone(), alone_dev.clone(), firsts.clone());
            move |ch, cx| {
                let (i, j) = (ch.pick(fi.len()), ch.pick(fi.len()));
                cx.outcome(mix(((d[fi[i]].bytes[0] as u64) << 32) ^ j as u64));
                after(&d, &alone, &[fi[i], fi[j]], cx)
            }
        }),
        Run::new("histories", format!("every frame of the deviating writer under each version, then one of the probe packets (every one of {np})"), 1, move |ch, cx| {
            let f = wire::frame(ch, false, false);
            // the probe varies freely with undeviating histories, else by the length of the history
            let i = ch.wide(1 + np);
            let p = if i == 0 { &p1[f.bytes.len() % np] } else { &p1[i - 1] };
            history(&[(&f.bytes, f.version), (&p.bytes, p.version), (&[0x40, 2, 0xBE, 0xEF], 4)], cx)
        }),
        Run::new("version-histories", "every catalogue or crooked packet under versions 3, 4, 5, then every catalogue or crooked packet under its own", 0, move |ch, cx| {
            let f = &a1[ch.pick(a1.len())];
            let g = &a1[ch.pick(a1.len())];
            let v = [3u8, 4, 5][ch.pick(3)];
            history(&[(&f.bytes, v), (&g.bytes, g.version)], cx)
        }),
        Run::new("triples", "every sequence of two of the selected packets under versions 3, 4, 5, then every selected packet", 0, move |ch, cx| {
            let n = sel.len();
            let (f, g, h) = (&sel[ch.pick(n)], &sel[ch.pick(n)], &sel[ch.pick(n)]);
            let vs = if quick { vec![f.version, g.version] } else { vec![[3u8, 4, 5][ch.pick(3)], [3u8, 4, 5][ch.pick(3)]] };
            history(&[(&f.bytes, vs[0]), (&g.bytes, vs[1]), (&h.bytes, h.version)], cx)
        }),
        Run::new(
            "repetitions",
            format!("every ordered pair f, g of catalogue and crooked packets, f under versions 3, 4 and 5: (f g) repeated {} times on one decoder", if quick { 4 } else { 12 }),
            0,
            {
                let (a, alone) = (all.clone(), alone.clone());
                move |ch, cx| {
                    let (i, j) = (ch.pick(a.len()), ch.pick(a.len()));
                    let v = ch.pick(3);
                    repeated(&a, &alone, &[(i, v), (j, alone.own[j])], if quick { 4 } else { 12 }, cx)
                }
            },
        ),
        Run::new(
            "long-histories",
            "every packet f of the catalogue and the crooked ones under versions 3, 4 and 5: 1100 times f; (f p) 300 times for each of the selected packets p; f once, p 300 times",
            0,
            {
                let (a, alone) = (all.clone(), alone.clone());
                let sel: Vec<usize> = selection().iter().filter_map(|f| a.iter().position(|g| g.bytes == f.bytes && g.version == f.version)).collect();
                move |ch, cx| {
                    let i = ch.pick(a.len());
                    let v = ch.pick(3);
                    let k = ch.pick(1 + 2 * sel.len());
                    if k == 0 {
                        repeated(&a, &alone, &[(i, v)], 1100, cx)
                    } else if k % 2 == 1 {
                        let j = sel[k / 2];
                        repeated(&a, &alone, &[(i, v), (j, alone.own[j])], 300, cx)
                    } else {
                        let j = sel[k / 2 - 1];
                        let mut h = vec![(i, v)];
                        h.extend(std::iter::repeat_n((j, alone.own[j]), 300));
                        h.push((i, v));
                        repeated(&a, &alone, &h, 1, cx)
                    }
                }
            },
        ),
        Run::new("all-then-all", "all catalogue and crooked packets in a row, starting at each of them, forwards and backwards, in steps of 1 to 12, three times over, each under its own version or all under one", 0, {
            let (a, alone) = (all.clone(), alone.clone());
            move |ch, cx| {
                let n = a.len();
                let (start, step, back) = (ch.pick(n), 1 + ch.pick(if quick { 4 } else { 12 }), ch.pick(2) == 1);
                let v = ch.pick(4);
                let h: Vec<(usize, usize)> = (0..n)
                    .map(|k| {
                        let i = (start + k * step) % n;
                        let i = if back { n - 1 - i } else { i };
                        (i, if v < 3 { v } else { alone.own[i] })
                    })
                    .collect();
                repeated(&a, &alone, &h, 3, cx)
            }
        }),
        Run::new("asking", "every stream of three packets, has_more() asked 0 to 3 times before each packet (not at all where more is known to follow)", 0, {
            let st = streams();
            move |ch, cx| {
                let (b, v) = &st[ch.pick(st.len())];
                let want = reference(b, v);
                let mut dec = decoder(8192, &b[..]);
                cx.describe(|| format!("stream {} versions {v:?}", hexs(b)));
                for (i, w) in want.results.iter().enumerate() {
                    for _ in 0..if i < 3 { ch.pick(4) } else { 1 } {
                        if !imp(|| dec.has_more()) {
                            return Err(Fail::new(format!("packet {i} is still there but has_more() says no: {}", hexs(b))));
                        }
                    }
                    let g = imp(|| dec.decode_packet(v.get(i).copied().unwrap_or(4)));
                    if !same_got(&g, w) {
                        return Err(Fail::new(format!("packet {i} gives {}, with one has_more() before each {}: {}", known(&g), known(w), hexs(b))));
                    }
                }
                for _ in 0..2 {
                    if imp(|| dec.has_more()) != !want.ended {
                        return Err(Fail::new(format!("has_more() changes its answer at the end: {}", hexs(b))));
                    }
                }
                cx.count("streams, any number of questions");
                Ok(())
            }
        }),
        Run::new(
            "two-decoders",
            "two decoders with two of the selected packets each, all six orders of their calls",
            0,
            {
                let (a, alone) = (all.clone(), alone.clone());
                let sel: Vec<usize> = selection().iter().filter_map(|f| a.iter().position(|g| g.bytes == f.bytes && g.version == f.version)).collect();
                move |ch, cx| {
                    let h: Vec<usize> = (0..4).map(|_| sel[ch.pick(sel.len())]).collect();
                    let order = [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]][ch.pick(6)];
                    let s: Vec<Vec<u8>> = (0..2).map(|k| [&a[h[2 * k]].bytes[..], &a[h[2 * k + 1]].bytes[..]].concat()).collect();
                    cx.describe(|| format!("first stream {}\nsecond stream {}\ncalls {order:?}", hexs(&s[0]), hexs(&s[1])));
                    let mut dec = [decoder(512, &s[0][..]), decoder(512, &s[1][..])];
                    let mut done = [0, 0];
                    for d in order {
                        let i = h[2 * d + done[d]];
                        done[d] += 1;
                        let more = imp(|| dec[d].has_more());
                        let g = imp(|| dec[d].decode_packet(a[i].version));
                        let want = alone.get(&a, i, alone.own[i]);
                        if !more || !same_got(&g, want) {
                            return Err(Fail::new(format!(
                                "{} (version {}) gives {} and on its own {}; streams {} and {}, calls {order:?}",
                                hexs(&a[i].bytes),
                                a[i].version,
                                known(&g),
                                known(want),
                                hexs(&s[0]),
                                hexs(&s[1])
                            )));
                        }
                    }
                    if imp(|| dec[0].has_more() || dec[1].has_more()) {
                        return Err(Fail::new(format!("a decoder reports more data; streams {} and {}, calls {order:?}", hexs(&s[0]), hexs(&s[1]))));
                    }
                    cx.outcome(mix((h[0] as u64) << 32 ^ h[1] as u64));
                    trace::model_start(0x3244_4543);
                    for d in order {
                        trace::push(mix((h[2 * d] as u64) << 16 ^ d as u64));
                    }
                    cx.count("interleaved decoders");
                    Ok(())
                }
            },
        ),
        Run::new(
            "during-a-read",
            "every catalogue and crooked packet, interrupted at every offset: while its source is asked for more, another decoder decodes a \
             selected packet, or a packet of each type and version is encoded, on the same thread or on another",
            0,
            {
                let (a, alone) = (all.clone(), alone.clone());
                let mut acts: Vec<Other> = selection().iter().filter_map(|f| a.iter().position(|g| g.bytes == f.bytes && g.version == f.version)).map(Other::Decode).collect();
                let none: Vec<u32> = vec![];
                for kind in 0..15 {
                    for v in [4u8, 5] {
                        if kind == 14 && v == 4 {
                            continue;
                        }
                        let (p, w) = (gen::packet_of(&mut Ch::new(&none, 0), Mode::Dev { wide: false }, kind, true, v), v);
                        let alone = std::thread::scope(|s| s.spawn(|| encode_by_type(&p, w)).join()).unwrap_or_else(|_| Ok(vec![]));
                        acts.push(Other::Encode(p, w, alone));
                    }
                }
                move |ch, cx| {
                    let i = ch.pick(a.len());
                    let f = &a[i];
                    let cut = ch.pick(f.bytes.len().min(if quick { 80 } else { 400 }));
                    let act = &acts[ch.pick(acts.len())];
                    let other = ch.pick(2) == 1;
                    cx.describe(|| format!("version {} bytes {}\nafter {cut} bytes: {}{}", f.version, hexs(&f.bytes), act.text(&a), if other { " on another thread" } else { "" }));
                    let mut bad = None;
                    let mut run = || {
                        bad = if other {
                            std::thread::scope(|s| s.spawn(|| act.run(&a, &alone)).join()).unwrap_or_else(|_| Some("a panic".into()))
                        } else {
                            act.run(&a, &alone)
                        }
                    };
                    let src = Meanwhile { data: &f.bytes, pos: 0, cut, act: Some(&mut run) };
                    let g = imp(|| PacketDecoder::from_stream(src).decode_packet(f.version));
                    let want = alone.get(&a, i, alone.own[i]);
                    if !same_got(&g, want) {
                        return Err(Fail::new(format!(
                            "{} (version {}) gives {} and on its own {}; after {cut} bytes: {}",
                            hexs(&f.bytes),
                            f.version,
                            known(&g),
                            known(want),
                            act.text(&a)
                        )));
                    }
                    if let Some(b) = bad {
                        return Err(Fail::new(format!("while another decoder waits for bytes ({} of {}), {b}", cut, hexs(&f.bytes))));
                    }
                    cx.outcome(mix((i as u64) << 32 ^ cut as u64));
                    trace::model_start(mix(i as u64));
                    trace::push(cut as u64);
                    cx.count("something else happened during a read");
                    Ok(())
                }
            },
        ),
        Run::new("same-decoder-twice", "every catalogue or crooked packet twice on one decoder and once on another, under each version", 0, move |ch, cx| {
            let f = &a2[ch.pick(a2.len())];
            let v = [3u8, 4, 5][ch.pick(3)];
            history(&[(&f.bytes, v), (&f.bytes, v), (&f.bytes, f.version)], cx)
        }),
        Run::new("entry-points", "every frame of the deviating writer through every way to build a decoder", 2, |ch, cx| {
            let f = wire::frame(ch, false, false);
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            entry_points(&f.bytes, f.version, cx)
        }),
        Run::new("entry-points-catalogue", "every catalogue and crooked packet through every way to build a decoder under versions 0 to 6 and 255", 0, move |ch, cx| {
            let f = &a3[ch.pick(a3.len())];
            let v = [0u8, 1, 2, 3, 4, 5, 6, 255][ch.pick(8)];
            cx.describe(|| format!("version {v} bytes {}", hexs(&f.bytes)));
            entry_points(&f.bytes, v, cx)
        }),
        Run::new("twins", format!("{TWINS}: a packet of one of seven kinds whose texts are all the first, then one whose texts are all the second, on one decoder; both are as the reference model says, and encode to what they were"), 0, |ch, cx| {
            let (t, u) = twins(ch);
            let (a, b) = (all_one_text(ch, &t), all_one_text(ch, &u));
            history(&[(&a.0, a.1), (&b.0, b.1)], cx)?;
            // and when they are written
            let ps: Vec<MqttPacket> = [&a, &b].iter().filter_map(|x| match super::decode::verdict_of(&x.0, x.1) {
                Some(Verdict::Accept(p) | Verdict::May(p, _)) => Some(p),
                _ => None,
            }).collect();
            for (p, v) in ps.iter().zip([a.1, b.1]) {
                let Ok(e) = imp(|| p.clone().encode(v)) else {
                    return Err(Fail::new(format!("{} is refused", short(p))));
                };
                if !matches!(super::decode::verdict_of(&e, v), Some(Verdict::Accept(q) | Verdict::May(q, _)) if &q == p) {
                    return Err(Fail::new(format!("{} is encoded as {}", short(p), hexs(&e))));
                }
            }
            Ok(())
        }),
        Run::new("source-values", format!("{SOURCE}; then one of twelve packets"), if quick { 0 } else { 1 }, {
            let probes = probes.clone();
            move |ch, cx| {
                let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
                let p = &probes[ch.pick(12) * probes.len() / 12];
                history(&[(&f.bytes, f.version), (&p.bytes, p.version), (&[0x40, 2, 0xBE, 0xEF], 4)], cx)
            }
        }),
        Run::new("source-lengths", "every catalogue and crooked packet f as many times as any number in the source says (one less, one more), then each of the selected packets once", 0, {
            let (a, alone) = (all.clone(), alone.clone());
            let sel: Vec<usize> = selection().iter().filter_map(|f| a.iter().position(|g| g.bytes == f.bytes && g.version == f.version)).collect();
            move |ch, cx| {
                let lit = src::ints(300, 20_000);
                if lit.is_empty() {
                    return Ok(());
                }
                let i = ch.pick(a.len());
                let n = lit[ch.pick(lit.len())] as usize;
                if quick && a[i].bytes.len() > 300 {
                    return Ok(());
                }
                let mut h = vec![(i, alone.own[i]); n];
                h.extend(sel.iter().map(|j| (*j, alone.own[*j])));
                repeated(&a, &alone, &h, 1, cx)
            }
        }),
        Run::new("source-encode", "every field of every packet value with every number, text and length that the source of the crate names; then a packet of each type and version, which gives the bytes it gives on a thread that has encoded nothing else", if quick { 0 } else { 1 }, {
            let none: Vec<u32> = vec![];
            let mut after = vec![];
            for kind in 0..15 {
                for v in [4u8, 5] {
                    if kind == 14 && v == 4 {
                        continue;
                    }
                    let p = gen::packet_of(&mut Ch::new(&none, 0), Mode::Dev { wide: false }, kind, true, v);
                    let alone = std::thread::scope(|s| s.spawn(|| encode_by_type(&p, v)).join()).unwrap_or_else(|_| Ok(vec![]));
                    after.push((p, v, alone));
                }
            }
            move |ch, cx| {
                let Some((p, v)) = gen::source_packet(ch, false) else { return Ok(()) };
                cx.describe(|| format!("version {v} {}", short(&p)));
                for (q, w, want) in &after {
                    let _ = imp(|| encode_by_type(&p, v));
                    let got = imp(|| encode_by_type(q, *w));
                    let lv = if let MqttPacket::Connect(c) = q { c.protocol_version } else { *w };
                    if !same_result(&got, want, lv) {
                        return Err(Fail::new(format!("after version {v} {}\n  version {w} {}\n  gives {}\n  instead of {}", short(&p), short(q), short(&got.map(|b| hexs(&b))), short(&want.as_ref().map(|b| hexs(b))))));
                    }
                }
                cx.outcome(packet_hash(&p));
                cx.add("encoded after another packet", after.len() as u64);
                Ok(())
            }
        }),
        Run::new("encode-pairs", format!("every ordered pair out of {} packet values with at most one deviation, encoded one after the other: the second gives the bytes it gives on a thread that has encoded nothing else", values.len()), 0, {
            let values = values.clone();
            move |ch, cx| {
                let (p, v, _) = &values[ch.pick(values.len())];
                let (q, w, want) = &values[ch.pick(values.len())];
                cx.describe(|| format!("version {v} {}\nthen version {w} {}", short(p), short(q)));
                let _ = imp(|| encode_by_type(p, *v));
                let got = imp(|| encode_by_type(q, *w));
                let lv = if let MqttPacket::Connect(c) = q { c.protocol_version } else { *w };
                if !same_result(&got, want, lv) {
                    return Err(Fail::new(format!("after version {v} {}\n  version {w} {}\n  gives {}\n  instead of {}", short(p), short(q), short(&got.map(|b| hexs(&b))), short(&want.as_ref().map(|b| hexs(b))))));
                }
                cx.outcome(mix(q as *const MqttPacket as u64 ^ super::encode::kind_of(p)));
                cx.count("encoded after another packet");
                Ok(())
            }
        }),
        Run::new("encode-entry-points", "every packet value within the deviation bound encoded through the packet enum, the packet type, and twice", if quick { 2 } else { 3 }, |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Dev { wide: false });
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            let lv = if let MqttPacket::Connect(c) = &p { c.protocol_version } else { v };
            let a = imp(|| p.clone().encode(v));
            let b = imp(|| encode_by_type(&p, v));
            let c = imp(|| encode_by_type(&p, v));
            if !same_result(&a, &b, lv) || !same_result(&b, &c, lv) {
                return Err(Fail::new(format!("version {v}: encoded through the enum {}, through the type {}, again {}", short(&a.map(|b| hexs(&b))), short(&b.map(|b| hexs(&b))), short(&c.map(|b| hexs(&b))))));
            }
            if let Ok(a) = &a {
                // the same bytes when nothing is left to the order of a map
                if !same_bytes(a, b.as_ref().unwrap(), lv) {
                    return Err(Fail::new("different bytes"));
                }
            }
            cx.outcome(mix(a.map(|b| b.len() as u64).unwrap_or(1)) ^ super::encode::kind_of(&p));
            cx.count("three encodings agree");
            Ok(())
        }),
    ]
}
