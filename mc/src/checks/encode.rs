//! Packet values into bytes: C01 C02 C03 C15 C17 C20.
use crate::explore::*;
use crate::gen::{self, Mode};
use crate::obs::*;
use crate::spec::{self, *};
use crate::trace::mix;
use crate::wire;
use mqtt_packet_3_5::*;

const WIDE: Mode = Mode::Dev { wide: true };

/// up to three user property names in one packet: every iteration order of the map is produced
fn map_in_order(pairs: &[(&str, &[&str])], order: &[usize]) -> UserProperties {
    loop {
        let mut m = UserProperties::new();
        for (k, v) in pairs {
            m.insert(k.to_string(), v.iter().map(|s| s.to_string()).collect());
        }
        if m.keys().map(|k| k.as_str()).eq(order.iter().map(|i| pairs[*i].0)) {
            return m;
        }
    }
}

const PERM3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// packets of every type with three user property names, in every order of the map
fn ordered_packet(ch: &mut Ch) -> (MqttPacket, u8) {
    let kind = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14][ch.pick(13)];
    let m = map_in_order(&[("a", &["1", "2"]), ("bb", &["x"]), ("ccc", &["p", "p", "q"])], &PERM3[ch.pick(6)]);
    let none: Vec<u32> = vec![];
    let mut c = Ch::new(&none, 0);
    let mut p = gen::packet_of(&mut c, Mode::Dev { wide: false }, kind, true, 5);
    set_ups(&mut p, m);
    (p, 5)
}

fn set_ups(p: &mut MqttPacket, m: UserProperties) {
    match p {
        MqttPacket::Connect(c) => {
            c.will.as_mut().unwrap().properties.as_mut().unwrap().user_properties = m.clone();
            c.properties.as_mut().unwrap().user_properties = m
        }
        MqttPacket::Connack(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Publish(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            c.properties.as_mut().unwrap().user_properties = m
        }
        MqttPacket::Subscribe(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Suback(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Unsubscribe(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Unsuback(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Disconnect(c) => c.properties.as_mut().unwrap().user_properties = m,
        MqttPacket::Auth(c) => c.properties.as_mut().unwrap().user_properties = m,
        _ => {}
    }
}

/// up to `max` texts out of "", "a", "b", "a "
fn texts(ch: &mut Ch, max: usize) -> Vec<String> {
    let n = ch.pick(max + 1);
    (0..n).map(|_| ["", "a", "b", " a"][ch.pick(4)].to_string()).collect()
}

/// every small list: user properties of one and of two names, granted codes, topics, subscriptions,
/// subscription identifiers
fn small_lists(ch: &mut Ch, max: usize) -> (MqttPacket, u8) {
    let none: Vec<u32> = vec![];
    let base = |kind: usize, full: bool, v: u8| {
        gen::packet_of(&mut Ch::new(&none, 0), Mode::Dev { wide: false }, kind, full, v)
    };
    match ch.pick(8) {
        0 => {
            let kind = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14][ch.pick(13)];
            let mut m = UserProperties::new();
            m.insert(["", "k", "é", "k "][ch.pick(4)].to_string(), texts(ch, max));
            let mut p = base(kind, true, 5);
            set_ups(&mut p, m);
            (p, 5)
        }
        1 => {
            let kind = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14][ch.pick(13)];
            let mut m = UserProperties::new();
            m.insert(["", "a"][ch.pick(2)].to_string(), texts(ch, 2));
            m.insert(["A", "aa", "a\0", "b"][ch.pick(4)].to_string(), texts(ch, 2));
            let mut p = base(kind, true, 5);
            set_ups(&mut p, m);
            (p, 5)
        }
        2 => {
            let v = [3u8, 4][ch.pick(2)];
            let n = ch.pick(max + 2);
            let all = [Granted::QoS0, Granted::QoS1, Granted::QoS2, Granted::Failure];
            let mut p = base(8, true, v);
            if let MqttPacket::Suback(s) = &mut p {
                s.granted = (0..n).map(|_| all[ch.pick(4)].clone()).collect();
            }
            (p, v)
        }
        3 => {
            let n = ch.pick(max);
            let all = suback_codes();
            let mut p = base(8, ch.pick(2) == 1, 5);
            if let MqttPacket::Suback(s) = &mut p {
                s.granted_reason_codes = (0..n).map(|_| all[ch.pick(all.len())].1.clone()).collect();
            }
            (p, 5)
        }
        4 => {
            let n = ch.pick(max);
            let all = unsuback_codes();
            let mut p = base(10, ch.pick(2) == 1, 5);
            if let MqttPacket::Unsuback(s) = &mut p {
                s.granted = (0..n).map(|_| all[ch.pick(all.len())].1.clone()).collect();
            }
            (p, 5)
        }
        5 => {
            let v = [3u8, 4, 5][ch.pick(3)];
            let mut p = base(9, ch.pick(2) == 1 && v == 5, v);
            let l = ["a", "b", "a/#", "+", "é"];
            let n = ch.pick(max + 1);
            if let MqttPacket::Unsubscribe(s) = &mut p {
                s.unsubscriptions = (0..n).map(|_| l[ch.pick(5)].to_string()).collect();
            }
            (p, v)
        }
        6 => {
            let v = [3u8, 4, 5][ch.pick(3)];
            let mut p = base(7, ch.pick(2) == 1 && v == 5, v);
            let n = 1 + ch.pick(2);
            if let MqttPacket::Subscribe(s) = &mut p {
                s.subscriptions = (0..n)
                    .map(|_| Subscription {
                        topic: ["a", "$share/g/t"][ch.pick(2)].to_string(),
                        qos: [QoS::QoS0, QoS::QoS1, QoS::QoS2][ch.pick(3)].clone(),
                        nl: v == 5 && ch.pick(2) == 1,
                        rap: v == 5 && ch.pick(2) == 1,
                        rh: if v == 5 { [Some(0), Some(1), Some(2)][ch.pick(3)] } else { None },
                    })
                    .collect();
            }
            (p, v)
        }
        _ => {
            let n = ch.pick(max + 1);
            let mut p = base(2, true, 5);
            if let MqttPacket::Publish(PublishPacket { properties: Some(s), .. }) = &mut p {
                s.subscription_identifiers =
                    (0..n).map(|_| [1u32, 2, 127, 128, 16384, 268_435_455][ch.pick(6)]).collect();
            }
            (p, 5)
        }
    }
}

type PacketCheck = fn(&MqttPacket, u8, &mut Cx) -> Out;

fn packet_runs(quick: bool, f: PacketCheck) -> Vec<Run> {
    let mut v = vec![
        Run::new(
            "packets",
            "every packet value within the deviation bound: optional parts, flags, field menus (edge lengths, edge \
             numbers, UTF-8 of 1-4 bytes, list sizes, user property shapes); single fields additionally over all \
             16-bit ids, all bytes, all string lengths 0-330 and around 16384 and 65535",
            if quick { 2 } else { 3 },
            move |ch, cx| {
                let (p, v) = gen::packet(ch, WIDE);
                cx.describe(|| format!("version {v}\npacket {}", short(&p)));
                f(&p, v, cx)
            },
        ),
        Run::new(
            "presence",
            "full product of all optional parts, flags, QoS and code values of every packet type and version",
            0,
            move |ch, cx| {
                let (p, v) = gen::packet(ch, Mode::Free);
                cx.describe(|| format!("version {v}\npacket {}", short(&p)));
                f(&p, v, cx)
            },
        ),
        Run::new(
            "presence-edges",
            "full product of all optional parts, flags, QoS and code values, with field values at an edge (empty, \
             multi-byte, 128 bytes, 0, 1, the maximum) within the deviation bound",
            if quick { 1 } else { 2 },
            move |ch, cx| {
                let (p, v) = gen::packet(ch, Mode::FreeEdges);
                cx.describe(|| format!("version {v}\npacket {}", short(&p)));
                f(&p, v, cx)
            },
        ),
        Run::new(
            "map-orders",
            "every packet type with three user property names, under every iteration order of the map",
            0,
            move |ch, cx| {
                let (p, v) = ordered_packet(ch);
                cx.describe(|| format!("version {v}\npacket {}", short(&p)));
                f(&p, v, cx)
            },
        ),
    ];
    v.push(Run::new(
        "small-lists",
        format!(
            "user properties with every list of up to {} values out of four, of two names with up to two values each, in every \
             packet type; every short list of granted codes, topics, subscription identifiers; every pair of subscriptions \
             with all options",
            if quick { 5 } else { 7 }
        ),
        0,
        move |ch, cx| {
            let (p, v) = small_lists(ch, if quick { 5 } else { 7 });
            cx.describe(|| format!("version {v}\npacket {}", short(&p)));
            f(&p, v, cx)
        },
    ));
    v.push(Run::new(
        "similar-texts",
        "user properties, topics and texts of all selections of 26 texts that differ in case, blanks, composition, width, a prefix or a NUL only",
        0,
        move |ch, cx| {
            let (b, v) = super::decode::similar_frame(ch);
            // the reference model turns them into packet values
            let p = match super::decode::verdict_of(&b, v).unwrap_or(Verdict::Any(0)) {
                Verdict::Accept(p) | Verdict::May(p, _) => p,
                _ => return Ok(()),
            };
            cx.describe(|| format!("version {v}\npacket {}", short(&p)));
            f(&p, v, cx)
        },
    ));
    v.push(Run::new(
        "twins",
        format!("{}, in the user properties, topics and texts of one packet", super::decode::TWINS),
        0,
        move |ch, cx| {
            let (b, v) = super::decode::twin_frame(ch);
            let p = match super::decode::verdict_of(&b, v).unwrap_or(Verdict::Any(0)) {
                Verdict::Accept(p) | Verdict::May(p, _) => p,
                _ => return Ok(()),
            };
            cx.describe(|| format!("version {v}\npacket {}", short(&p)));
            f(&p, v, cx)
        },
    ));
    v.push(Run::new("shapes", super::decode::SHAPES, 0, move |ch, cx| {
        let (b, v) = super::decode::shaped_frame(ch);
        let p = match super::decode::verdict_of(&b, v).unwrap_or(Verdict::Any(0)) {
            Verdict::Accept(p) | Verdict::May(p, _) => p,
            _ => return Ok(()),
        };
        cx.describe(|| format!("version {v}\npacket {}", short(&p)));
        f(&p, v, cx)
    }));
    v.push(Run::new(
        "equal-values",
        "every packet value within the deviation bound of one whose texts, names and numbers are all equal",
        if quick { 2 } else { 3 },
        move |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Same);
            cx.describe(|| format!("version {v}\npacket {}", short(&p)));
            f(&p, v, cx)
        },
    ));
    for two in [false, true] {
        if two && quick {
            continue;
        }
        v.push(Run::new(
            if two { "source-pairs" } else { "source-values" },
            if two {
                "every pair of fields of every packet, both with every number, text and length that the source of the crate names"
            } else {
                "every field of every packet with every number, text and length that the source of the crate names (one less, one more), the rest within the deviation bound"
            },
            if two { 0 } else if quick { 1 } else { 2 },
            move |ch, cx| {
                let Some((p, v)) = gen::source_packet(ch, two) else { return Ok(()) };
                cx.describe(|| format!("version {v}\npacket {}", short(&p)));
                f(&p, v, cx)
            },
        ));
    }
    v.push(Run::new("huge", super::decode::HUGE, 0, move |ch, cx| {
        let Some((p, v)) = super::decode::huge_packet(ch, quick) else { return Ok(()) };
        cx.describe(|| format!("version {v}\npacket {}", short(&p)));
        f(&p, v, cx)
    }));
    v.push(Run::new("big", "PUBLISH around the largest remaining length, 268435455", 0, move |ch, cx| {
        // one worker at a time: each case is a quarter gigabyte
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let v = [4u8, 5][ch.pick(2)];
        let head = if v == 5 { 6 } else { 5 };
        let total = MAXVAR as usize + [0usize, 1, 128][ch.pick(3)];
        let p = MqttPacket::Publish(PublishPacket {
            dup: false,
            qos: 0,
            retain: false,
            topic: "big".into(),
            message_id: None,
            payload: vec![0x55; total - head],
            properties: None,
        });
        cx.describe(|| format!("version {v}, PUBLISH with remaining length {total}"));
        f(&p, v, cx)
    }));
    v
}

pub fn c01(quick: bool) -> Vec<Run> {
    packet_runs(quick, |p, v, cx| {
        let enc = imp(|| p.clone().encode(v));
        let Ok(b) = enc else {
            cx.count("refused");
            return Ok(());
        };
        cx.count("round trips");
        // feeds the state count of the reference model
        let _ = spec::stream(&b, |_| v);
        let got = first(&b, v);
        let want = expected(p, v);
        cx.describe(|| format!("encoded {}", hexs(&b)));
        match got {
            Ok(q) => {
                if b.len() < 4096 {
                    cx.outcome(packet_hash(&q));
                }
                cx.sample(|| format!("v{v} {} -> {} -> equal", short(p), hexs(&b)));
                if canon(&q) == want {
                    Ok(())
                } else {
                    Err(Fail::new(format!(
                        "encoded as version {v} and decoded again, the packet changed:\n  in  {}\n  out {}\n  bytes {}",
                        short(p),
                        short(&q),
                        hexs(&b)
                    )))
                }
            }
            Err(e) => Err(Fail::new(format!(
                "encoding as version {v} succeeded but the bytes do not decode ({e}):\n  packet {}\n  bytes {}",
                short(p),
                hexs(&b)
            ))),
        }
    })
}

pub fn c02(quick: bool) -> Vec<Run> {
    packet_runs(quick, check_output)
}

fn check_output(p: &MqttPacket, v: u8, cx: &mut Cx) -> Out {
    let Ok(b) = imp(|| p.clone().encode(v)) else {
        cx.count("refused");
        return Ok(());
    };
    cx.count("outputs parsed");
    let bad = |why: String| {
        Err(Fail::new(format!(
            "version {v} output is not one well-formed packet: {why}\n  packet {}\n  bytes {}",
            short(p),
            hexs(&b)
        )))
    };
    match spec::header(&b) {
        Header::Ok { first, hdr, len, minimal } => {
            if hdr + len != b.len() {
                return bad(format!("remaining length says {len}, {} bytes follow", b.len() - hdr));
            }
            if !minimal {
                return bad("remaining length is not minimal".into());
            }
            let r = spec::parse(first, &b[hdr..], v, true);
            match r {
                Err(e) => bad(format!("{e:?}")),
                Ok(r) => {
                    let must = class(p, v) == Class::Must;
                    if r.anom & STRUCTURAL != 0 || (must && r.anom != 0) {
                        return bad(format!("irregular (bits {:#x})", r.anom));
                    }
                    if b.len() < 4096 {
                        let mut h = 0;
                        for x in &b {
                            h = mix(h ^ *x as u64)
                        }
                        cx.outcome(h);
                    }
                    cx.sample(|| format!("v{v} {} -> {}", short(p), hexs(&b)));
                    let want = expected(p, v);
                    if canon(&r.packet) != want {
                        return bad(format!("it says\n  {}", short(&r.packet)));
                    }
                    Ok(())
                }
            }
        }
        _ => bad("no header".into()),
    }
}

pub fn c03(quick: bool) -> Vec<Run> {
    let mut runs = packet_runs(quick, |p, v, cx| {
        let enc = imp(|| p.clone().encode(v));
        let c = class(p, v);
        match (&c, &enc) {
            (Class::Must, Ok(_)) => cx.count("valid, encoded"),
            (Class::Refuse(_), Err(_)) => cx.count("unrepresentable, refused"),
            (Class::May, _) => cx.count("no claim"),
            (Class::Must, Err(e)) => {
                return Err(Fail::new(format!("valid packet refused as version {v} ({e}):\n  {}", short(p))))
            }
            (Class::Refuse(w), Ok(b)) => {
                return Err(Fail::new(format!(
                    "version {v} cannot represent this packet ({w}), but encoding gave {}\n  {}",
                    hexs(b),
                    short(p)
                )))
            }
        }
        // feeds the state count: the class is decided by the reference model
        let h = match &c {
            Class::Must => 1,
            Class::May => 2,
            Class::Refuse(w) => w.bytes().fold(7u64, |a, b| mix(a ^ b as u64)),
        };
        crate::trace::model_start(0);
        crate::trace::push(mix(h ^ ((v as u64) << 8) ^ (kind_of(p) << 16)));
        if let Ok(b) = &enc {
            let _ = spec::stream(b, |_| v);
        }
        cx.outcome(mix(h ^ ((v as u64) << 8) ^ (kind_of(p) << 16) ^ enc.is_ok() as u64));
        if let Class::Refuse(w) = &c {
            cx.sample(|| format!("v{v} {} -> refused ({w})", short(p)));
        }
        Ok(())
    });
    runs.push(Run::new(
        "beyond-32-bits",
        "PUBLISH whose remaining length is just above a multiple of 4 GiB (must be refused, not cut to 32 bits)",
        0,
        |ch, cx| {
            static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _g = ONE.lock().unwrap_or_else(|e| e.into_inner());
            let v = [4u8, 5][ch.pick(2)];
            let n = (1usize << 32) + [0usize, 20][ch.pick(2)];
            crate::alloc::arm(false);
            let p = PublishPacket {
                dup: false,
                qos: 0,
                retain: false,
                topic: "big".into(),
                message_id: None,
                payload: vec![0; n],
                properties: None,
            };
            cx.describe(|| format!("version {v}, PUBLISH with a payload of {n} zero bytes"));
            let r = imp(|| p.encode(v));
            cx.outcome(mix(n as u64 ^ v as u64));
            match r {
                Err(_) => Ok(()),
                Ok(b) => Err(Fail::new(format!(
                    "version {v}: PUBLISH with a payload of {n} bytes was encoded: {}",
                    hexs(&b)
                ))),
            }
        },
    ));
    runs
}

pub fn kind_of(p: &MqttPacket) -> u64 {
    match p {
        MqttPacket::Connect(_) => 1,
        MqttPacket::Connack(_) => 2,
        MqttPacket::Publish(_) => 3,
        MqttPacket::Puback(_) => 4,
        MqttPacket::Pubrec(_) => 5,
        MqttPacket::Pubrel(_) => 6,
        MqttPacket::Pubcomp(_) => 7,
        MqttPacket::Subscribe(_) => 8,
        MqttPacket::Suback(_) => 9,
        MqttPacket::Unsubscribe(_) => 10,
        MqttPacket::Unsuback(_) => 11,
        MqttPacket::Pingreq => 12,
        MqttPacket::Pingresp => 13,
        MqttPacket::Disconnect(_) => 14,
        MqttPacket::Auth(_) => 15,
    }
}

/// equality of outputs up to the order of user properties with different names
pub fn same_bytes(a: &[u8], b: &[u8], v: u8) -> bool {
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    let (Header::Ok { first: f1, hdr: h1, len: l1, .. }, Header::Ok { first: f2, hdr: h2, len: l2, .. }) =
        (spec::header(a), spec::header(b))
    else {
        return false;
    };
    if (f1, h1, l1) != (f2, h2, l2) || h1 + l1 != a.len() {
        return false;
    }
    match (spec::parse(f1, &a[h1..], v, true), spec::parse(f2, &b[h2..], v, true)) {
        (Ok(x), Ok(y)) => {
            let rest = |r: &RawProps| r.iter().filter(|(i, _)| *i != 0x26).cloned().collect::<Vec<_>>();
            let mut c = b.to_vec();
            c.sort();
            let mut d = a.to_vec();
            d.sort();
            c == d
                && x.packet == y.packet
                && x.anom == y.anom
                && rest(&x.props) == rest(&y.props)
                && rest(&x.will_props) == rest(&y.will_props)
        }
        _ => false,
    }
}

pub fn same_result(a: &Res<Vec<u8>>, b: &Res<Vec<u8>>, v: u8) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => same_bytes(a, b, v),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

pub fn c15(quick: bool) -> Vec<Run> {
    let mut v = packet_runs(quick, |p, v, cx| {
        if let MqttPacket::Connect(c) = p {
            // by its own level, whatever the caller passes
            let level = c.protocol_version;
            let a = imp(|| p.clone().encode(level));
            for w in [0u8, 3, 4, 5, 6, 255] {
                let b = imp(|| p.clone().encode(w));
                if !same_result(&a, &b, level) {
                    return Err(Fail::new(format!(
                        "CONNECT of level {level} is encoded differently when the caller says {w}: {:?} / {:?}\n  {}",
                        short(&a),
                        short(&b),
                        short(p)
                    )));
                }
            }
            let s = gen::strip(p, level);
            let b = imp(|| s.clone().encode(level));
            if !same_result(&a, &b, level) {
                return Err(Fail::new(format!(
                    "CONNECT of level {level}: version 5 parts show in the output: {} / {}\n  {}",
                    short(&a.map(|b| hexs(&b))),
                    short(&b.map(|b| hexs(&b))),
                    short(p)
                )));
            }
            if let Ok(a) = &a {
                let _ = spec::stream(a, |_| level);
                let own = first(a, level);
                for w in [0u8, 3, 4, 5, 6, 255] {
                    let other = first(a, w);
                    if own.is_ok() != other.is_ok() || own.as_ref().ok() != other.as_ref().ok() {
                        return Err(Fail::new(format!(
                            "CONNECT of level {level} is decoded differently when the caller says {w}: {} / {}\n  {}",
                            short(&own),
                            short(&other),
                            hexs(a)
                        )));
                    }
                }
                cx.count("CONNECT, all caller versions");
                cx.outcome(got_hash(&own));
                cx.sample(|| format!("CONNECT level {level} {} decodes the same for callers 0,3,4,5,6,255", hexs(a)));
            }
            return Ok(());
        }
        if v == 5 {
            return Ok(());
        }
        let s = gen::strip(p, v);
        let a = imp(|| p.clone().encode(v));
        let b = imp(|| s.clone().encode(v));
        if !same_result(&a, &b, v) {
            return Err(Fail::new(format!(
                "version {v}: encoding depends on parts that exist only in version 5: {} / {}\n  {}",
                short(&a.map(|b| hexs(&b))),
                short(&b.map(|b| hexs(&b))),
                short(p)
            )));
        }
        if let Ok(a) = &a {
            let _ = spec::stream(a, |_| v);
            cx.count("encoded, equal to the stripped packet");
            let mut h = v as u64;
            for x in a.iter().take(4096) {
                h = mix(h ^ *x as u64)
            }
            cx.outcome(h);
            cx.sample(|| format!("v{v} {} -> {}", short(p), hexs(a)));
        }
        Ok(())
    });
    v.push(Run::new(
        "decode-versions",
        "every wire frame within the deviation bound, decoded as version 3 and 4: nothing that exists only in \
         version 5 is reported; every CONNECT frame decoded for all 256 caller versions",
        2,
        |ch, cx| {
            let f = wire::frame(ch, false, false);
            cx.describe(|| format!("bytes {}", hexs(&f.bytes)));
            let connect = f.bytes[0] >> 4 == 1;
            if connect {
                let a = first(&f.bytes, 5);
                let few: &[u8] = &[0, 1, 2, 3, 4, 6, 7, 127, 128, 131, 132, 133, 255];
                for v in few {
                    let b = first(&f.bytes, *v);
                    if a.is_ok() != b.is_ok() || a.as_ref().ok() != b.as_ref().ok() {
                        return Err(Fail::new(format!(
                            "CONNECT decodes to {} for caller version 5 but to {} for {v}",
                            short(&a),
                            short(&b)
                        )));
                    }
                }
                cx.outcome(got_hash(&a));
                if let Ok(MqttPacket::Connect(c)) = &a {
                    if c.protocol_version < 5
                        && (c.properties.is_some() || c.will.as_ref().map(|w| w.properties.is_some()).unwrap_or(false))
                    {
                        return Err(Fail::new(format!("properties in a CONNECT before version 5: {}", short(&a))));
                    }
                }
                return Ok(());
            }
            for v in [3u8, 4] {
                let a = first(&f.bytes, v);
                cx.outcome(got_hash(&a));
                let _ = spec::stream(&f.bytes, |_| v);
                if let Ok(p) = &a {
                    if *p != gen::strip(p, v) || leaks(p) {
                        return Err(Fail::new(format!(
                            "decoded as version {v}, yet has parts of version 5: {}",
                            short(p)
                        )));
                    }
                    cx.count("decoded as 3 or 4");
                }
            }
            // and as version 5 nothing that exists only before
            if let Ok(p) = first(&f.bytes, 5) {
                let bad = match &p {
                    MqttPacket::Connack(c) => c.return_code.is_some(),
                    MqttPacket::Suback(c) => !c.granted.is_empty(),
                    _ => false,
                };
                if bad {
                    return Err(Fail::new(format!("decoded as version 5, yet has parts of version 3: {}", short(&p))));
                }
            }
            Ok(())
        },
    ));
    v.push(Run::new(
        "other-versions",
        "every packet value within one deviation encoded, and every frame within one deviation decoded, under all \
         256 version numbers: a number that is none of 3, 4, 5 is refused or stands for one of them as a whole, a \
         mixture of layouts never comes out",
        if quick { 1 } else { 2 },
        |ch, cx| {
            let w = ch.pick(256) as u8;
            if (3..=5).contains(&w) {
                return Ok(());
            }
            if ch.pick(2) == 0 {
                let kind = ch.pick(15);
                let full = ch.pick(2) == 1;
                let like = [5u8, 4][ch.pick(2)];
                let p = gen::packet_of(ch, gen::Mode::Dev { wide: false }, kind, full, like);
                cx.describe(|| format!("version {w} packet {}", short(&p)));
                if let MqttPacket::Connect(_) = p {
                    return Ok(());
                }
                let r = imp(|| p.clone().encode(w));
                cx.outcome(mix(r.as_ref().map(|b| b.len() as u64).unwrap_or(u64::MAX) ^ (kind as u64) << 32));
                if r.is_err() {
                    cx.count("refused under another version number");
                    return Ok(());
                }
                for v in [4u8, 3, 5] {
                    if same_result(&r, &imp(|| p.clone().encode(v)), v) {
                        cx.count("encoded under another version number like 3, 4 or 5");
                        return Ok(());
                    }
                }
                return Err(Fail::new(format!(
                    "version {w}: encoded as {}, which is neither version 3, 4 nor 5: {}",
                    short(&r.map(|b| hexs(&b))),
                    short(&p)
                )));
            }
            let f = wire::frame(ch, false, false);
            cx.describe(|| format!("version {w} bytes {}", hexs(&f.bytes)));
            if f.bytes[0] >> 4 == 1 {
                return Ok(());
            }
            let r = first(&f.bytes, w);
            cx.outcome(got_hash(&r));
            let Ok(p) = r else {
                cx.count("refused under another version number");
                return Ok(());
            };
            for v in [4u8, 3, 5] {
                if first(&f.bytes, v).as_ref() == Ok(&p) {
                    cx.count("decoded under another version number like 3, 4 or 5");
                    return Ok(());
                }
            }
            // before version 5 the end of a packet may be taken less strictly, there are no parts to mix then
            if p == gen::strip(&p, 4) && !leaks(&p) {
                cx.count("decoded under another version number without version 5 parts");
                return Ok(());
            }
            Err(Fail::new(format!(
                "version {w}: decoded to {}, which is neither version 3, 4 nor 5: {}",
                short(&p),
                hexs(&f.bytes)
            )))
        },
    ));
    v
}

fn leaks(p: &MqttPacket) -> bool {
    match p {
        MqttPacket::Auth(_) => true,
        MqttPacket::Subscribe(s) => s.subscriptions.iter().any(|s| s.nl || s.rap || s.rh.is_some()),
        _ => false,
    }
}

pub fn c17(quick: bool) -> Vec<Run> {
    fn body(f: &wire::Frame, cx: &mut Cx) -> Out {
        let b0 = &f.bytes;
        let v = f.version;
        let Header::Ok { first: fb, hdr, len, minimal } = spec::header(b0) else {
            return Ok(());
        };
        if hdr + len > b0.len() || !minimal {
            return Ok(());
        }
        let b0 = &b0[..hdr + len];
        let Ok(m0) = spec::parse(fb, &b0[hdr..], v, true) else {
            return Ok(());
        };
        if m0.anom != 0 {
            return Ok(());
        }
        // a packet obtained by decoding well-formed bytes
        let Ok(p1) = first(b0, v) else {
            cx.count("well-formed but not decoded (C04)");
            return Ok(());
        };
        cx.describe(|| format!("decoded {}", short(&p1)));
        let v1 = if let MqttPacket::Connect(c) = &p1 { c.protocol_version } else { v };
        let b1 = match imp(|| p1.clone().encode(v)) {
            Ok(b) => b,
            Err(e) => {
                return Err(Fail::new(format!(
                    "decoded from {} as version {v}, but cannot be encoded again ({e}):\n  {}",
                    hexs(b0),
                    short(&p1)
                )))
            }
        };
        let bad = |w: String| {
            Err(Fail::new(format!(
                "forwarding changed a packet (version {v}): {w}\n  in  {}\n  out {}",
                hexs(b0),
                hexs(&b1)
            )))
        };
        let m1 = match spec::header(&b1) {
            Header::Ok { first, hdr, len, .. } if hdr + len == b1.len() => {
                match spec::parse(first, &b1[hdr..], v, true) {
                    Ok(m) => m,
                    Err(e) => return bad(format!("output malformed: {e:?}")),
                }
            }
            _ => return bad("output is not one packet".into()),
        };
        if m1.anom & STRUCTURAL != 0 {
            return bad("output irregular".into());
        }
        if canon(&m0.packet) != canon(&m1.packet) {
            return bad(format!("meant\n  {}\nnow means\n  {}", short(&m0.packet), short(&m1.packet)));
        }
        let ctx = ctx_of(&m0.packet);
        let (x0, x1) = (meaning(ctx, &m0.props), meaning(ctx, &m1.props));
        let (w0, w1) = (meaning(Ctx::Will, &m0.will_props), meaning(Ctx::Will, &m1.will_props));
        if x0 != x1 || w0 != w1 {
            // classify for the known findings
            if ctx == Ctx::Connack && w0 == w1 {
                let mut y = x1.clone();
                let k = (0x11u8, String::new());
                if !x0.contains_key(&k) && y.remove(&k) == Some(vec![Val::N(0)]) && y == x0 {
                    return Err(Fail::known(
                        "connack-session-expiry-absent",
                        format!("CONNACK {} is encoded again as {}", hexs(b0), hexs(&b1)),
                    ));
                }
            }
            return bad(format!("properties meant {x0:?} {w0:?}\nnow mean {x1:?} {w1:?}"));
        }
        // normal form
        let p2 = match first(&b1, v) {
            Ok(p) => p,
            Err(e) => return bad(format!("output does not decode: {e}")),
        };
        let b2 = imp(|| p2.clone().encode(v));
        match &b2 {
            Ok(b2) if same_bytes(&b1, b2, v1) => {}
            _ => return bad(format!("encoding again gives {}", short(&b2.map(|b| hexs(&b))))),
        }
        match first(b2.as_ref().unwrap(), v) {
            Ok(p3) if p3 == p2 => {}
            x => return bad(format!("second generation differs: {} / {}", short(&p2), short(&x))),
        }
        if canon(&p1) != canon(&p2) {
            return bad(format!("decoded packet changed: {} / {}", short(&p1), short(&p2)));
        }
        cx.count("forwarded");
        cx.outcome(packet_hash(&p1));
        cx.sample(|| format!("v{v} {} -> {}", hexs(b0), hexs(&b1)));
        Ok(())
    }
    vec![
        Run::new(
            "frames",
            "every well-formed wire frame within the deviation bound, including all lengths and 16-bit values of \
             single fields",
            if quick { 2 } else { 3 },
            |ch, cx| {
                let f = wire::frame(ch, true, false);
                cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
                body(&f, cx)
            },
        ),
        Run::new(
            "subsets",
            "every subset of the legal properties of every version 5 packet, every CONNECT flag combination",
            0,
            |ch, cx| {
                let kind = 1 + ch.pick(15);
                let f = if kind == 1 { super::decode::connect_free(ch) } else { wire::frame_of(ch, false, true, kind, true, 5) };
                cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
                body(&f, cx)
            },
        ),
        Run::new(
            "subsets-deviating",
            "every well-formed one of: every subset of the legal properties of every version 5 packet and every combination of CONNECT \
             and PUBLISH flags, each with one deviation of the deviating writer",
            if quick { 1 } else { 2 },
            |ch, cx| {
                let f = wire::frame(ch, false, true);
                cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
                body(&f, cx)
            },
        ),
        Run::new("equal-values", "every well-formed frame within the deviation bound of one with equal texts, names and numbers", 2, |ch, cx| {
            let f = wire::frame_same(ch);
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
        Run::new("lists", "every list of a packet with every number of items from 0 to 300", 0, move |ch, cx| {
            let (bytes, version) = super::decode::list_frame(ch, if quick { 300 } else { 1200 });
            let f = wire::Frame { bytes, version };
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
        Run::new("huge", super::decode::HUGE, 0, move |ch, cx| {
            let (bytes, version) = super::decode::huge_frame(ch, quick);
            let f = wire::Frame { bytes, version };
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
        Run::new("source-values", super::stream::SOURCE, if quick { 1 } else { 2 }, |ch, cx| {
            let Some(f) = wire::source_frame(ch, false) else { return Ok(()) };
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
        Run::new("small-lists", "every short list: topics, codes, pairs of subscriptions with all options", 0, move |ch, cx| {
            let (bytes, version) = super::decode::small_list_frame(ch, if quick { 4 } else { 6 });
            let f = wire::Frame { bytes, version };
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
        Run::new("repeats", "sequences of user properties and subscription identifiers up to length 5", 0, move |ch, cx| {
            let f = super::decode::repeats(ch, if quick { 5 } else { 6 });
            cx.describe(|| format!("version {} bytes {}", f.version, hexs(&f.bytes)));
            body(&f, cx)
        }),
    ]
}

pub fn ctx_of(p: &MqttPacket) -> Ctx {
    match p {
        MqttPacket::Connect(_) => Ctx::Connect,
        MqttPacket::Connack(_) => Ctx::Connack,
        MqttPacket::Publish(_) => Ctx::Publish,
        MqttPacket::Subscribe(_) => Ctx::Subscribe,
        MqttPacket::Unsubscribe(_) => Ctx::Unsubscribe,
        MqttPacket::Disconnect(_) => Ctx::Disconnect,
        MqttPacket::Auth(_) => Ctx::Auth,
        _ => Ctx::Ack,
    }
}

pub fn c20(quick: bool) -> Vec<Run> {
    fn props(ch: &mut Ch, wide: bool) -> Option<ConfirmationProperties> {
        let mut g = gen::G { ch, full: true, mode: Mode::Dev { wide }, fixed: false, slots: gen::Slots::NONE };
        match g.ch.pick(2) {
            0 => None,
            _ => Some(ConfirmationProperties { reason_string: g.ostr("reason"), user_properties: g.ups("u") }),
        }
    }
    fn verify(name: &str, p: MqttPacket, want: MqttPacket, v: u8, bytes: Option<Vec<u8>>, cx: &mut Cx) -> Out {
        cx.describe(|| format!("{name}, version {v}: {}", short(&p)));
        if p != want {
            return Err(Fail::new(format!("{name} built {}", short(&p))));
        }
        let enc = imp(|| p.clone().encode(v));
        match class(&p, v) {
            Class::Refuse(_) => return Ok(()),
            Class::May if enc.is_err() => return Ok(()),
            _ => {}
        }
        let b = match enc {
            Ok(b) => b,
            Err(e) => return Err(Fail::new(format!("{name}: cannot be encoded as version {v} ({e}): {}", short(&p)))),
        };
        if let Some(w) = bytes {
            if b != w {
                return Err(Fail::new(format!("{name}: encodes to {}, not {}", hexs(&b), hexs(&w))));
            }
        }
        check_output(&p, v, cx)?;
        match first(&b, v) {
            Ok(q) if q == p => {}
            // a property set without any property is no property set
            Ok(q) if canon(&p) != p && q == canon(&p) => {}
            x => {
                return Err(Fail::new(format!(
                    "{name}: {} decodes to {} instead of {}",
                    hexs(&b),
                    short(&x),
                    short(&p)
                )))
            }
        }
        cx.count("constructed, encoded, decoded");
        cx.sample(|| format!("{name} v{v} {}", hexs(&b)));
        Ok(())
    }
    let names = ["puback", "pubrec", "pubrel", "pubcomp"];
    let cmds = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp];
    let wrap = |k: usize, p: ConfirmationPacket| match k {
        0 => MqttPacket::Puback(p),
        1 => MqttPacket::Pubrec(p),
        2 => MqttPacket::Pubrel(p),
        _ => MqttPacket::Pubcomp(p),
    };
    let plain = move |k: usize, id: u16| ConfirmationPacket {
        cmd: cmds[k],
        message_id: id,
        properties: None,
        puback_reason_code: None,
        pubcomp_reason_code: None,
    };
    vec![
        Run::new(
            "v3",
            "the four version-3 acknowledgement constructors with every message id, versions 3 and 4",
            0,
            move |ch, cx| {
                let k = ch.pick(4);
                let v = [3u8, 4][ch.pick(2)];
                let id = ch.pick(65536) as u16;
                let p = imp(|| match k {
                    0 => ConfirmationPacket::puback_v3(id),
                    1 => ConfirmationPacket::pubrec_v3(id),
                    2 => ConfirmationPacket::pubrel_v3(id),
                    _ => ConfirmationPacket::pubcomp_v3(id),
                });
                let bytes = vec![[0x40, 0x50, 0x62, 0x70][k], 2, (id >> 8) as u8, id as u8];
                verify(names[k], wrap(k, p), wrap(k, plain(k, id)), v, Some(bytes), cx)
            },
        ),
        Run::new(
            "v5-ids",
            "the four version-5 constructors with every message id and every code, no properties",
            0,
            move |ch, cx| {
                let k = ch.pick(4);
                let n = if k < 2 { 9 } else { 2 };
                let c = ch.pick(n);
                let id = ch.pick(65536) as u16;
                let (p, want) = v5(k, c, id, None, plain(k, id));
                verify(names[k], wrap(k, p), wrap(k, want), 5, None, cx)
            },
        ),
        Run::new(
            "v5-props",
            "the four version-5 constructors with every code and property sets within the deviation bound",
            if quick { 3 } else { 4 },
            move |ch, cx| {
                let k = ch.pick(4);
                let n = if k < 2 { 9 } else { 2 };
                let c = ch.pick(n);
                let id = [0x1234, 1, 0x00FF, 0xFF00][ch.dev(4)];
                let pr = props(ch, true);
                let (p, want) = v5(k, c, id, pr, plain(k, id));
                verify(names[k], wrap(k, p), wrap(k, want), 5, None, cx)
            },
        ),
        Run::new(
            "v5-source",
            "the four version-5 constructors with every code and a reason or user property with every text and length that the source of the crate names",
            0,
            move |ch, cx| {
                let k = ch.pick(4);
                let n = if k < 2 { 9 } else { 2 };
                let c = ch.pick(n);
                let make = |ch: &mut Ch, slots: &mut gen::Slots| {
                    let mut g = gen::G { ch, full: true, mode: Mode::Dev { wide: false }, fixed: false, slots: *slots };
                    let p = ConfirmationProperties { reason_string: g.ostr("reason"), user_properties: g.ups("u") };
                    *slots = g.slots;
                    p
                };
                let mut s = gen::Slots::NONE;
                make(&mut Ch::new(&[], 0), &mut s);
                let a = ch.pick(s.seen);
                let mut s = gen::Slots { at: [a, usize::MAX], seen: 0, hits: 0 };
                let pr = make(ch, &mut s);
                let (p, want) = v5(k, c, 0x1234, Some(pr), plain(k, 0x1234));
                verify(names[k], wrap(k, p), wrap(k, want), 5, None, cx)
            },
        ),
        Run::new(
            "suback-source",
            "SubackPacket::new_v3 with as many codes, all equal or all in turn, as any number in the source says (one less, one more), and more",
            0,
            move |ch, cx| {
                let all = [Granted::QoS0, Granted::QoS1, Granted::QoS2, Granted::Failure];
                let mut n: Vec<usize> = (6..300).collect();
                n.extend([1000, 16_381, 16_382, 65_535, 65_536, 100_000]);
                n.extend(crate::src::ints(300, 300_000).iter().map(|x| *x as usize));
                let n = n[ch.pick(n.len())];
                let turn = ch.pick(5);
                let l: Vec<Granted> = (0..n).map(|i| all[if turn == 4 { i % 4 } else { turn }].clone()).collect();
                let v = [3u8, 4][ch.pick(2)];
                let p = imp(|| SubackPacket::new_v3(0x0102, l.clone()));
                let want = SubackPacket {
                    reason_code: None,
                    message_id: 0x0102,
                    properties: None,
                    granted_reason_codes: vec![],
                    granted: l.clone(),
                };
                let mut b = vec![0x90];
                spec::put_var(&mut b, 2 + n as u32);
                b.extend([1, 2]);
                b.extend((0..n).map(|i| [0, 1, 2, 0x80u8][if turn == 4 { i % 4 } else { turn }]));
                verify("suback", MqttPacket::Suback(p), MqttPacket::Suback(want), v, Some(b), cx)
            },
        ),
        Run::new(
            "suback",
            "SubackPacket::new_v3 with every granted list up to length 5 and, for one code, every id",
            0,
            move |ch, cx| {
                let all = [Granted::QoS0, Granted::QoS1, Granted::QoS2, Granted::Failure];
                let long = ch.pick(2) == 0;
                let (id, l) = if long {
                    let n = ch.pick(6);
                    (0x0102u16, (0..n).map(|_| all[ch.pick(4)].clone()).collect::<Vec<_>>())
                } else {
                    (ch.pick(65536) as u16, vec![Granted::QoS1])
                };
                let v = [3u8, 4][ch.pick(2)];
                let p = imp(|| SubackPacket::new_v3(id, l.clone()));
                let want = SubackPacket {
                    reason_code: None,
                    message_id: id,
                    properties: None,
                    granted_reason_codes: vec![],
                    granted: l.clone(),
                };
                let mut b = vec![0x90, 2 + l.len() as u8, (id >> 8) as u8, id as u8];
                b.extend(l.iter().map(|g| match g {
                    Granted::QoS0 => 0,
                    Granted::QoS1 => 1,
                    Granted::QoS2 => 2,
                    Granted::Failure => 0x80u8,
                }));
                verify("suback", MqttPacket::Suback(p), MqttPacket::Suback(want), v, Some(b), cx)
            },
        ),
    ]
}

fn v5(
    k: usize,
    c: usize,
    id: u16,
    props: Option<ConfirmationProperties>,
    base: ConfirmationPacket,
) -> (ConfirmationPacket, ConfirmationPacket) {
    let mut want = base;
    want.properties = props.clone();
    if k < 2 {
        let code = puback_codes()[c].1.clone();
        want.puback_reason_code = Some(code.clone());
        let p = imp(|| match k {
            0 => ConfirmationPacket::puback_v5(id, code, props),
            _ => ConfirmationPacket::pubrec_v5(id, code, props),
        });
        (p, want)
    } else {
        let code = pubcomp_codes()[c].1.clone();
        want.pubcomp_reason_code = Some(code.clone());
        let p = imp(|| match k {
            2 => ConfirmationPacket::pubrel_v5(id, code, props),
            _ => ConfirmationPacket::pubcomp_v5(id, code, props),
        });
        (p, want)
    }
}
