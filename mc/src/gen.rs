//! Universe of packet values: every field of every packet type is a choice point.
use crate::explore::Ch;
use crate::{spec, src};
use mqtt_packet_3_5::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// optional parts and flags have a base value and deviate from it; field values deviate
    Dev { wide: bool },
    /// optional parts and flags are free choices (full product), field values stay at their tags
    Free,
    /// as Free, and field values deviate to a few edges
    FreeEdges,
    /// as Dev, with equal values everywhere: every text and name is "x", every number 1
    Same,
}

pub struct G<'a, 'b> {
    pub ch: &'a mut Ch<'b>,
    pub full: bool,
    pub mode: Mode,
    /// presence and flags stay as they are where the product would be too large
    pub fixed: bool,
    /// the fields, by their number, that take the values found in the source
    pub slots: Slots,
}

/// Fields are numbered in the order they are made; those with the numbers in `at` take every value out of
/// the literals of the source.
#[derive(Clone, Copy)]
pub struct Slots {
    pub at: [usize; 2],
    pub seen: usize,
    pub hits: usize,
}

impl Slots {
    pub const NONE: Slots = Slots { at: [usize::MAX; 2], seen: 0, hits: 0 };
    /// sizes at the limit of what a field can hold are kept for the runs without values out of the source
    fn light(&self, n: usize) -> usize {
        if self.at[0] == usize::MAX {
            n
        } else {
            n.min(300)
        }
    }
    pub fn hit(&mut self) -> bool {
        let k = self.seen;
        self.seen += 1;
        let h = self.at.contains(&k);
        self.hits += h as usize;
        h
    }
}

/// a text out of the source, or one as long as a number in it says
pub fn source_text(ch: &mut Ch, tag: &str) -> String {
    let t = src::texts();
    let n = src::ints(0, 65_537);
    match ch.pick(t.len() + n.len()) {
        i if i < t.len() => t[i].clone(),
        i => fill(tag, n[i - t.len()] as usize),
    }
}

fn source_int(ch: &mut Ch, max: u32) -> u32 {
    let n = src::ints(0, max);
    if n.is_empty() {
        return 0;
    }
    n[ch.pick(n.len())]
}

const EDGE_CHARS: [u32; 20] = [
    0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
    0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x10FFFF,
];

pub fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=330).collect();
    v.extend(16_330..=16_400);
    v.extend([32_767, 32_768]);
    v.extend(65_530..=65_536);
    v.extend([65_537, 65_540, 131_072]);
    v
}

pub fn fill(tag: &str, n: usize) -> String {
    // pieces that differ by position, so that shifted or repeated text is noticed
    let mut s = String::with_capacity(n + 8);
    s.push_str(tag);
    let mut i = 0u32;
    while s.len() < n {
        s.push((b'a' + (i % 23) as u8) as char);
        i += 1;
    }
    s.truncate(n);
    s
}

/// texts that are different but could be taken for each other: case, blanks, composition, width, prefixes, numbers
pub const SIMILAR: [&str; 26] = [
    "k",
    "K",
    " k",
    "k ",
    "k\t",
    "k\n",
    "kk",
    "",
    "k\0",
    "\0",
    "k/",
    "/k",
    "k.",
    "é",
    "É",
    "e\u{301}",
    "\u{212A}",
    "ｋ",
    "\u{feff}k",
    "k\u{200d}",
    "ﬁ",
    "fi",
    "1",
    "01",
    "ß",
    "ss",
];

/// strings whose characters straddle every small offset and the length boundaries, strings whose byte
/// length and character count differ across a boundary, and strings that mean something elsewhere
pub fn special_strings() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        for k in 0..=40 {
            for c in ['é', '€', '𝄞'] {
                v.push(format!("{}{c}z", "a".repeat(k)));
            }
        }
        for total in [
            62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384,
            65534, 65535, 65536,
        ] {
            for c in ['é', '€', '𝄞'] {
                // the last character ends at or crosses `total`
                v.push(format!("{}{c}", "a".repeat(total - c.len_utf8())));
                v.push(format!("{}{c}", "a".repeat(total - 1)));
            }
        }
        for k in (60..=66).chain(124..=130).chain([32767, 32768]) {
            v.push("é".repeat(k));
        }
        for k in (20..=22).chain(41..=44).chain(84..=87).chain([21845, 21846]) {
            v.push("€".repeat(k));
        }
        for k in (15..=17).chain(31..=33).chain(63..=65).chain([16383, 16384]) {
            v.push("𝄞".repeat(k));
        }
        for s in [
            "/",
            "//",
            "a/",
            "/a",
            "a//b",
            "$",
            "$SYS",
            "$SYS/broker",
            "$share",
            "$share/",
            "$share//",
            "$share/g",
            "$share/g/",
            "$share/g/t",
            "$share/g//t",
            "$share/+/t",
            "$share/g/#",
            "+",
            "#",
            "+/+",
            "a/+/b",
            "a/#",
            "#/a",
            "a+",
            "a#",
            " ",
            " x ",
            "\t",
            "\n",
            "\r\n",
            "\r",
            "\u{1}",
            "\u{1f}",
            "\u{7f}",
            "\u{80}",
            "\u{9f}",
            "\u{a0}",
            "\u{ad}",
            "\u{feff}",
            "\u{feff}x",
            "x\u{feff}",
            "\u{fffd}",
            "\u{fffe}x",
            "\u{fdd0}",
            "\u{200b}",
            "\u{202e}x",
            "e\u{301}",
            "\u{e9}",
            "ﬁ",
            "ß",
            "İ",
            "\0",
            "\0\0",
            "x\0",
            "\0x",
            "MQTT",
            "MQIsdp",
            "mqtt",
            "true",
            "null",
            "0",
            "-1",
            "%2F",
            "\\",
            "\"",
            "'",
            "{}",
            "a,b",
            "a=b",
            "a:b",
            "\u{10ffff}",
            "\u{1f600}",
        ] {
            v.push(s.to_string());
        }
        v
    })
}

/// set once, before anything is explored: of 16-bit fields only the values with two equal bytes
pub static COARSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// how many items the longest of the lists explored count by count has, plus one
pub const MANY: usize = 301;

const NARROW_STR: [usize; 6] = [127, 128, 255, 256, 65535, 65536];

impl<'a, 'b> G<'a, 'b> {
    fn wide_on(&self) -> bool {
        self.mode == Mode::Dev { wide: true }
    }
    fn free(&self) -> bool {
        matches!(self.mode, Mode::Free | Mode::FreeEdges)
    }
    fn edge(&mut self, n: usize) -> usize {
        if self.mode == Mode::FreeEdges {
            self.ch.dev(n)
        } else {
            0
        }
    }
    fn same(&self) -> bool {
        self.mode == Mode::Same
    }
    pub fn opt(&mut self) -> bool {
        if self.free() && self.fixed {
            self.full
        } else if self.free() {
            self.ch.pick(2) == 1
        } else {
            (self.ch.dev(2) == 1) ^ self.full
        }
    }
    pub fn flag(&mut self, base: bool) -> bool {
        if self.free() && self.fixed {
            self.full
        } else if self.free() {
            self.ch.pick(2) == 1
        } else {
            (self.ch.dev(2) == 1) ^ base
        }
    }
    pub fn str(&mut self, tag: &str) -> String {
        if self.slots.hit() {
            return source_text(self.ch, tag);
        }
        if self.free() {
            return match self.edge(4) {
                0 => tag.to_string(),
                1 => String::new(),
                2 => "é€𝄞".to_string(),
                _ => fill(tag, 128),
            };
        }
        if self.same() {
            return ["x", "", "y"][self.ch.dev(3)].to_string();
        }
        match self.ch.dev(5 + NARROW_STR.len()) {
            0 => {}
            1 => return String::new(),
            2 => return "é€𝄞".to_string(),
            3 => return "a\0b".to_string(),
            4 => return "+/#".to_string(),
            i => return fill(tag, self.slots.light(NARROW_STR[i - 5])),
        }
        if self.wide_on() {
            let l = lengths();
            let sp = special_strings();
            let w = self.ch.wide(1 + l.len() + 128 + EDGE_CHARS.len() + sp.len());
            if w > 0 {
                let w = w - 1;
                return if w < l.len() {
                    fill(tag, l[w])
                } else if w < l.len() + 128 {
                    ((w - l.len()) as u8 as char).to_string()
                } else if w >= l.len() + 128 + EDGE_CHARS.len() {
                    sp[w - l.len() - 128 - EDGE_CHARS.len()].clone()
                } else {
                    let c = EDGE_CHARS[w - l.len() - 128];
                    format!("x{}y", char::from_u32(c).unwrap())
                };
            }
        }
        tag.to_string()
    }
    pub fn ostr(&mut self, tag: &str) -> Option<String> {
        if self.opt() {
            Some(self.str(tag))
        } else {
            None
        }
    }
    pub fn bin(&mut self, tag: &[u8]) -> Vec<u8> {
        if self.slots.hit() {
            return source_text(self.ch, "b").into_bytes();
        }
        if self.free() {
            return match self.edge(4) {
                0 => tag.to_vec(),
                1 => vec![],
                2 => vec![0xFF, 0],
                _ => fill("B", 128).into_bytes(),
            };
        }
        if self.same() {
            return [&b"x"[..], b"", b"y"][self.ch.dev(3)].to_vec();
        }
        match self.ch.dev(4 + NARROW_STR.len()) {
            0 => {}
            1 => return vec![],
            2 => return vec![0],
            3 => return vec![0xFF, 0xFE, 0x80],
            i => return fill("B", self.slots.light(NARROW_STR[i - 4])).into_bytes(),
        }
        if self.wide_on() {
            let l = lengths();
            let w = self.ch.wide(1 + l.len() + 256);
            if w > 0 {
                let w = w - 1;
                return if w < l.len() { fill("B", l[w]).into_bytes() } else { vec![(w - l.len()) as u8] };
            }
        }
        tag.to_vec()
    }
    pub fn payload(&mut self) -> Vec<u8> {
        if !self.free() && self.wide_on() {
            let w = self.ch.wide(1 + 60);
            if w > 0 {
                // around the three byte / four byte remaining length
                return fill("P", 2_097_151 - 50 + w - 1).into_bytes();
            }
        }
        self.bin(if self.full { b"pay" } else { b"" })
    }
    pub fn u16(&mut self, tag: u16) -> u16 {
        if self.slots.hit() {
            return source_int(self.ch, 65_535) as u16;
        }
        if self.free() {
            return [tag, 0, 1, 0xFFFF][self.edge(4)];
        }
        if self.same() {
            return [1, 0, 0x7878][self.ch.dev(3)];
        }
        const N: [u16; 8] = [0, 1, 0x00FF, 0x0100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF];
        match self.ch.dev(1 + N.len()) {
            0 => {}
            i => return N[i - 1],
        }
        if self.wide_on() {
            if COARSE.load(std::sync::atomic::Ordering::Relaxed) {
                let w = self.ch.wide(257);
                if w > 0 {
                    return (w - 1) as u16 * 257;
                }
                return tag;
            }
            let w = self.ch.wide(65537);
            if w > 0 {
                return (w - 1) as u16;
            }
        }
        tag
    }
    pub fn u8(&mut self, tag: u8, narrow: &[u8]) -> u8 {
        if self.free() {
            return tag;
        }
        match self.ch.dev(1 + narrow.len()) {
            0 => {}
            i => return narrow[i - 1],
        }
        if self.wide_on() {
            let w = self.ch.wide(257);
            if w > 0 {
                return (w - 1) as u8;
            }
        }
        tag
    }
    pub fn u32(&mut self, tag: u32) -> u32 {
        if self.slots.hit() {
            return source_int(self.ch, u32::MAX);
        }
        if self.free() {
            return [tag, 0, 1, 128, 0xFFFF_FFFF][self.edge(5)];
        }
        if self.same() {
            return [1, 0, 0x7878][self.ch.dev(3)];
        }
        const N: [u32; 16] = [
            0,
            1,
            127,
            128,
            255,
            256,
            16383,
            16384,
            65535,
            65536,
            2097151,
            2097152,
            0xFF_FFFF,
            268435455,
            268435456,
            0xFFFF_FFFF,
        ];
        match self.ch.dev(1 + N.len()) {
            0 => {}
            i => return N[i - 1],
        }
        if self.wide_on() {
            // single bits, all but one bit, single bytes
            let w = self.ch.wide(1 + 32 + 32 + 1024);
            if w > 0 {
                let w = w - 1;
                return if w < 32 {
                    1 << w
                } else if w < 64 {
                    !(1 << (w - 32))
                } else {
                    let w = (w - 64) as u32;
                    (w % 256) << (8 * (w / 256))
                };
            }
        }
        tag
    }
    pub fn ou32(&mut self, tag: u32) -> Option<u32> {
        if self.opt() {
            Some(self.u32(tag))
        } else {
            None
        }
    }
    pub fn ou16(&mut self, tag: u16) -> Option<u16> {
        if self.opt() {
            Some(self.u16(tag))
        } else {
            None
        }
    }
    pub fn ups(&mut self, tag: &str) -> UserProperties {
        let mut m = UserProperties::new();
        let k = format!("{tag}k");
        let v = format!("{tag}v");
        let one = |m: &mut UserProperties, k: &str, v: &[&str]| {
            m.insert(k.to_string(), v.iter().map(|s| s.to_string()).collect());
        };
        if self.slots.hit() {
            match self.ch.pick(5) {
                0 => one(&mut m, &source_text(self.ch, "k"), &[&v]),
                1 => one(&mut m, &k, &[&source_text(self.ch, "v")]),
                2 => one(&mut m, &k, &["a", &source_text(self.ch, "v"), "b"]),
                3 => {
                    let n = source_int(self.ch, 1100);
                    m.insert(k, (0..n).map(|i| format!("{}", i % 301)).collect());
                }
                _ => {
                    let n = source_int(self.ch, 1100);
                    (0..n).for_each(|i| one(&mut m, &format!("n{i}"), &[&format!("v{}", i % 9)]));
                }
            }
            return m;
        }
        if self.free() {
            if self.fixed || self.ch.pick(2) == 1 {
                match self.edge(3) {
                    0 => one(&mut m, &k, &[&v]),
                    1 => one(&mut m, &k, &["", &v, &v]),
                    _ => one(&mut m, "", &[""]),
                }
            }
            return m;
        }
        if self.same() {
            match self.ch.dev(5) {
                0 => one(&mut m, "x", &["x"]),
                1 => {}
                2 => one(&mut m, "x", &["x", "x"]),
                3 => one(&mut m, "x", &["x", "y", "x"]),
                _ => {
                    one(&mut m, "x", &["x"]);
                    one(&mut m, "y", &["x"]);
                }
            }
            return m;
        }
        match self.ch.dev(17) {
            0 => {
                if self.full {
                    one(&mut m, &k, &[&v])
                }
            }
            1 => {
                if !self.full {
                    one(&mut m, &k, &[&v])
                }
            }
            2 => one(&mut m, &k, &[]),
            3 => one(&mut m, &k, &["v1", "v2"]),
            4 => one(&mut m, &k, &["same", "same"]),
            5 => {
                one(&mut m, &k, &[&v]);
                one(&mut m, "other", &["w"]);
            }
            6 => one(&mut m, "", &[""]),
            7 => {
                one(&mut m, &k, &[&v]);
                one(&mut m, "other", &[]);
            }
            8 => one(&mut m, "é", &["€𝄞"]),
            9 => one(&mut m, &fill("K", self.slots.light(65535)), &[&v]),
            10 => one(&mut m, &fill("K", self.slots.light(65536)), &[&v]),
            11 => one(&mut m, &k, &[&fill("V", self.slots.light(65535))]),
            12 => one(&mut m, &k, &[&fill("V", self.slots.light(65536))]),
            13 => {
                one(&mut m, &k, &["c", "a", "b"]);
                one(&mut m, "l", &["y", "x"]);
                one(&mut m, "m", &["u"]);
            }
            14 => one(&mut m, &k, &["v", &fill("V", 200), "v"]),
            15 => one(&mut m, &k, &["ok", &fill("V", self.slots.light(65536))]),
            _ => {
                for i in 0..20 {
                    one(&mut m, &format!("key{i}"), &["0123456789"]);
                }
            }
        }
        if self.wide_on() {
            let l = lengths();
            let sp = special_strings();
            let w = self.ch.wide(1 + 2 * l.len() + 2 * MANY + 2 * sp.len());
            if w > 0 {
                let mut w = w - 1;
                m.clear();
                if w >= 2 * l.len() + 2 * MANY {
                    w -= 2 * l.len() + 2 * MANY;
                    if w < sp.len() {
                        one(&mut m, &sp[w], &[&v]);
                    } else {
                        one(&mut m, &k, &[&sp[w - sp.len()]]);
                    }
                } else if w >= 2 * l.len() {
                    w -= 2 * l.len();
                    if w < MANY {
                        // so many values under one name
                        let vals: Vec<String> = (0..w).map(|i| format!("{}", (i * 7) % 301)).collect();
                        m.insert(k.clone(), vals);
                    } else {
                        // so many names
                        for i in 0..w - MANY {
                            one(&mut m, &format!("n{i}"), &[&format!("v{}", i % 9)]);
                        }
                    }
                } else if w < l.len() {
                    one(&mut m, &k, &[&fill("V", l[w])]);
                } else {
                    one(&mut m, &fill("K", l[w - l.len()]), &[&v]);
                }
            }
        }
        m
    }

    fn connect_props(&mut self) -> ConnectProperties {
        ConnectProperties {
            session_expiry_interval: self.u32(0x11121314),
            receive_maximum: self.u16(0x2122),
            maximum_packet_size: self.ou32(0x27282930),
            topic_alias_maximum: self.u16(0x2223),
            request_response_information: self.flag(self.full),
            request_problem_information: self.flag(!self.full),
            user_properties: self.ups("cp"),
            authentication_method: self.ostr("auth-method"),
            authentication_data: self.ostr("auth-data"),
        }
    }
    fn will_props(&mut self) -> WillProperties {
        WillProperties {
            payload_format_indicator: self.flag(self.full),
            message_expiry_interval: self.ou32(0x02030405),
            content_type: self.ostr("will-content"),
            response_topic: self.ostr("will/response"),
            correlation_data: if self.opt() { self.bin(&[0x09, 0xFF]) } else { vec![] },
            will_delay_interval: self.u32(0x18191A1B),
            user_properties: self.ups("wp"),
        }
    }
    fn connack_props(&mut self) -> ConnackProperties {
        ConnackProperties {
            session_expiry_interval: self.u32(0x11223344),
            assigned_client_identifier: self.ostr("assigned"),
            server_keep_alive: self.ou16(0x1314),
            authentication_method: self.ostr("method"),
            authentication_data: self.ostr("data"),
            response_information: self.ostr("response-info"),
            server_reference: self.ostr("reference"),
            reason_string: self.ostr("reason"),
            receive_maximum: self.u16(0x2122),
            topic_alias_maximum: self.u16(0x2223),
            maximum_qos: if self.free() {
                self.ch.pick(3) as u8
            } else {
                self.u8(if self.full { 1 } else { 2 }, &[0, 1, 2, 3, 255])
            },
            retain_available: self.flag(!self.full),
            user_properties: self.ups("ca"),
            maximum_packet_size: self.ou32(0x27282930),
            wildcard_subscription_available: self.flag(!self.full),
            subscription_identifiers_available: self.flag(!self.full),
            shared_subscription_available: self.flag(!self.full),
            is_default: self.flag(false),
        }
    }
    fn ack_props(&mut self, tag: &str) -> ConfirmationProperties {
        ConfirmationProperties { reason_string: self.ostr(tag), user_properties: self.ups(tag) }
    }
    fn table<T: Clone>(&mut self, t: &[(u8, T)], base: usize) -> T {
        let i = if self.free() { self.ch.pick(t.len()) } else { (self.ch.dev(t.len()) + base) % t.len() };
        t[i].1.clone()
    }
}

/// one packet and the version to encode it for (3, 4 or 5)
pub fn packet(ch: &mut Ch, mode: Mode) -> (MqttPacket, u8) {
    let version = [5u8, 4, 3][ch.pick(3)];
    let kind = ch.pick(15);
    let full = if matches!(mode, Mode::Free | Mode::FreeEdges | Mode::Same) { true } else { ch.pick(2) == 1 };
    let p = packet_of(ch, mode, kind, full, version);
    (p, version)
}

pub fn packet_of(ch: &mut Ch, mode: Mode, kind: usize, full: bool, version: u8) -> MqttPacket {
    let mut s = Slots::NONE;
    packet_with(ch, mode, kind, full, version, &mut s)
}

/// A packet of which one field (`two`: two fields) takes every value out of the source, in every other respect
/// within the deviation bound. None: there is no such field in this packet.
pub fn source_packet(ch: &mut Ch, two: bool) -> Option<(MqttPacket, u8)> {
    let version = [5u8, 4, 3][ch.pick(3)];
    let kind = ch.pick(15);
    let full = ch.pick(2) == 1;
    let mode = Mode::Dev { wide: false };
    let mut s = Slots::NONE;
    packet_with(&mut Ch::new(&[], 0), mode, kind, full, version, &mut s);
    if s.seen == 0 {
        return None;
    }
    let a = ch.pick(s.seen);
    let b = if two && a + 1 < s.seen { a + 1 + ch.pick(s.seen - a - 1) } else { usize::MAX };
    let mut s = Slots { at: [a, b], seen: 0, hits: 0 };
    let p = packet_with(ch, mode, kind, full, version, &mut s);
    if s.hits == 1 + (b != usize::MAX) as usize {
        Some((p, version))
    } else {
        None
    }
}

fn packet_with(ch: &mut Ch, mode: Mode, kind: usize, full: bool, version: u8, slots: &mut Slots) -> MqttPacket {
    let mut g = G { ch, full, mode, fixed: false, slots: *slots };
    let p = build(&mut g, mode, kind, full, version);
    *slots = g.slots;
    p
}

fn build(g: &mut G, mode: Mode, kind: usize, full: bool, version: u8) -> MqttPacket {
    match kind {
        0 => {
            let level = g.u8(version, &[0, 1, 2, 3, 4, 5, 6, 0x83, 0x84, 0x85, 255]);
            // with edges, the product over the properties of the will or of the connection
            let part = if mode == Mode::FreeEdges { 1 + g.ch.pick(2) } else { 0 };
            MqttPacket::Connect(ConnectPacket {
                client_id: g.str("client"),
                protocol_version: level,
                protocol_id: if g.flag(level == 3) { Protocol::MQIsdp } else { Protocol::Mqtt },
                clean_session: g.flag(full),
                keep_alive: g.u16(0x0A0B),
                user_name: g.ostr("user"),
                password: g.ostr("secret"),
                will: if g.opt() {
                    Some(LastWill {
                        topic: if g.flag(true) { Some(g.str("will/topic")) } else { None },
                        payload: if g.opt() { Some(g.str("will-payload")) } else { None },
                        qos: if g.free() {
                            g.ch.pick(3) as u8
                        } else {
                            g.u8(if full { 2 } else { 0 }, &[0, 1, 2, 3, 4, 32, 255])
                        },
                        retain: g.flag(full),
                        properties: if g.opt() {
                            g.fixed = part == 1;
                            let p = g.will_props();
                            g.fixed = false;
                            Some(p)
                        } else {
                            None
                        },
                    })
                } else {
                    None
                },
                properties: if g.opt() {
                    g.fixed = part == 2;
                    let p = g.connect_props();
                    g.fixed = false;
                    Some(p)
                } else {
                    None
                },
            })
        }
        1 => MqttPacket::Connack(ConnackPacket {
            return_code: if g.flag(true) {
                Some(g.u8(if full { 0 } else { 1 }, &[0, 2, 5, 6, 0x80, 255]))
            } else {
                None
            },
            reason_code: if g.flag(true) {
                Some(g.u8(if full { 0 } else { 0x87 }, &[0, 0x80, 0x9F, 1, 255]))
            } else {
                None
            },
            session_present: g.flag(full),
            properties: if g.opt() { Some(g.connack_props()) } else { None },
        }),
        2 => MqttPacket::Publish(PublishPacket {
            dup: g.flag(full),
            qos: if g.free() {
                g.ch.pick(3) as u8
            } else {
                g.u8(if full { 1 } else { 0 }, &[0, 1, 2, 3, 4, 8, 128, 255])
            },
            retain: g.flag(full),
            topic: g.str("a/topic"),
            message_id: if g.flag(full) { Some(g.u16(0x0C0D)) } else { None },
            payload: g.payload(),
            properties: if g.opt() {
                Some(PublishProperties {
                    payload_format_indicator: g.flag(full),
                    message_expiry_interval: g.ou32(0x02030405),
                    content_type: g.ostr("content"),
                    response_topic: g.ostr("response/topic"),
                    correlation_data: if g.opt() { g.bin(&[0x00, 0x09, 0xC3]) } else { vec![] },
                    subscription_identifiers: {
                        let base: &[u32] = if full { &[5, 300] } else { &[] };
                        let many = if g.slots.hit() {
                            1 + source_int(g.ch, 1100) as usize
                        } else if g.wide_on() {
                            g.ch.wide(1 + MANY)
                        } else {
                            0
                        };
                        match g.ch.dev(if g.free() { 1 } else { 8 }) {
                            0 if many > 0 => (0..many as u32 - 1).map(|i| 1 + (i * 977) % 20_011).collect(),
                            0 => base.to_vec(),
                            1 => vec![g.u32(7)],
                            2 => vec![1, 1],
                            3 => vec![268_435_455, 1],
                            4 => vec![1, 268_435_456],
                            5 => vec![3, 2, 1],
                            6 => (1..=60).collect(),
                            _ => vec![127, 128, 16383, 16384, 2097151, 2097152],
                        }
                    },
                    topic_alias: g.ou16(0x2324),
                    user_properties: g.ups("pp"),
                })
            } else {
                None
            },
        }),
        3..=6 => {
            let cmd = [PacketType::Puback, PacketType::Pubrec, PacketType::Pubrel, PacketType::Pubcomp][kind - 3];
            let first = kind <= 4;
            // codes of a version 3/4 packet are normally absent
            let want = version == 5;
            let a = g.flag(first && want);
            let b = g.flag(!first && want);
            let p = ConfirmationPacket {
                cmd,
                puback_reason_code: if a {
                    Some(g.table(&spec::puback_codes(), if full { 3 } else { 0 }))
                } else {
                    None
                },
                pubcomp_reason_code: if b {
                    Some(g.table(&spec::pubcomp_codes(), if full { 1 } else { 0 }))
                } else {
                    None
                },
                properties: if g.opt() { Some(g.ack_props("ack")) } else { None },
                message_id: g.u16(0x0E0F),
            };
            match kind {
                3 => MqttPacket::Puback(p),
                4 => MqttPacket::Pubrec(p),
                5 => MqttPacket::Pubrel(p),
                _ => MqttPacket::Pubcomp(p),
            }
        }
        7 => {
            let many = if g.slots.hit() {
                1 + source_int(g.ch, 1100) as usize
            } else if g.wide_on() {
                g.ch.wide(1 + MANY)
            } else {
                0
            };
            let n = match g.ch.dev(5) {
                0 if many > 0 => many - 1,
                0 => 1 + full as usize,
                1 => 0,
                2 => 2 - full as usize,
                3 => 3,
                _ => 40,
            };
            let subscriptions = (0..n)
                .map(|i| Subscription {
                    topic: if i < 3 { g.str(["sub/+/one", "two/#", "three"][i]) } else { format!("filter{i}") },
                    qos: if i < 3 {
                        g.table(&[(0, QoS::QoS0), (1, QoS::QoS1), (2, QoS::QoS2)], (2 * full as usize + i) % 3)
                    } else {
                        [QoS::QoS1, QoS::QoS0, QoS::QoS2][i % 3].clone()
                    },
                    nl: if i < 3 { g.flag(full && i == 0) } else { i % 2 == 1 },
                    rap: if i < 3 { g.flag(full && i != 0) } else { i % 5 < 2 },
                    rh: if i < 3 {
                        if g.flag(version == 5) {
                            Some(if g.free() {
                                g.ch.pick(3) as u8
                            } else {
                                g.u8([1, 2, 0][i], &[0, 1, 2, 3, 4, 16, 64, 255])
                            })
                        } else {
                            None
                        }
                    } else {
                        Some((i / 3 % 3) as u8)
                    },
                })
                .collect();
            MqttPacket::Subscribe(SubscribePacket {
                qos: g.u8(1, &[0, 2, 3, 255]),
                subscriptions,
                properties: if g.opt() {
                    Some(SubscribeProperties {
                        subscription_identifier: g.u32(if full { 300 } else { 0 }),
                        user_properties: g.ups("sp"),
                    })
                } else {
                    None
                },
                message_id: g.u16(0x1011),
            })
        }
        8 => {
            let n5 = counts(g, 1 + full as usize);
            let n3 = counts(g, 1 + full as usize);
            MqttPacket::Suback(SubackPacket {
                reason_code: if g.flag(false) { Some(0x80) } else { None },
                message_id: g.u16(0x1213),
                properties: if g.opt() { Some(g.ack_props("sa")) } else { None },
                granted_reason_codes: (0..n5)
                    .map(|i| {
                        if i < 3 {
                            g.table(&spec::suback_codes(), [1, 5, 3][i])
                        } else {
                            nth(&spec::suback_codes(), i)
                        }
                    })
                    .collect(),
                granted: (0..n3)
                    .map(|i| {
                        if i < 3 {
                            g.table(
                                &[(0, Granted::QoS0), (1, Granted::QoS1), (2, Granted::QoS2), (0x80, Granted::Failure)],
                                [1, 3, 2][i],
                            )
                        } else {
                            [Granted::QoS0, Granted::Failure, Granted::QoS2, Granted::QoS1][i % 4].clone()
                        }
                    })
                    .collect(),
            })
        }
        9 => {
            let n = counts(g, 1 + full as usize);
            MqttPacket::Unsubscribe(UnsubscribePacket {
                qos: g.u8(1, &[0, 2, 3, 255]),
                message_id: g.u16(0x1415),
                properties: if g.opt() { Some(UnsubscribeProperties { user_properties: g.ups("us") }) } else { None },
                unsubscriptions: (0..n)
                    .map(|i| if i < 3 { g.str(["un/one", "un/two/#", "un/three"][i]) } else { format!("un{i}") })
                    .collect(),
            })
        }
        10 => {
            let n = counts(g, 1 + full as usize);
            MqttPacket::Unsuback(UnsubackPacket {
                message_id: g.u16(0x1617),
                granted: (0..n)
                    .map(|i| {
                        if i < 3 {
                            g.table(&spec::unsuback_codes(), [1, 4, 0][i])
                        } else {
                            nth(&spec::unsuback_codes(), i)
                        }
                    })
                    .collect(),
                properties: if g.opt() { Some(g.ack_props("ua")) } else { None },
            })
        }
        11 => MqttPacket::Pingreq,
        12 => MqttPacket::Pingresp,
        13 => {
            let some = g.flag(version == 5);
            MqttPacket::Disconnect(DisconnectPacket {
                reason_code: if some {
                    Some(g.table(&spec::disconnect_codes(), if full { 4 } else { 0 }))
                } else {
                    None
                },
                properties: if g.opt() {
                    Some(DisconnectProperties {
                        session_expiry_interval: g.ou32(0x11121314),
                        server_reference: g.ostr("server-ref"),
                        reason_string: g.ostr("why"),
                        user_properties: g.ups("di"),
                    })
                } else {
                    None
                },
            })
        }
        _ => MqttPacket::Auth(AuthPacket {
            reason_code: g.table(&spec::auth_codes(), full as usize),
            properties: if g.opt() {
                Some(AuthProperties {
                    authentication_method: g.str("SCRAM"),
                    authentication_data: g.ostr("challenge"),
                    reason_string: g.ostr("because"),
                    user_properties: g.ups("au"),
                })
            } else {
                None
            },
        }),
    }
}

fn nth<T: Clone>(t: &[(u8, T)], i: usize) -> T {
    t[(i * 5 + i / 7) % t.len()].1.clone()
}

fn counts(g: &mut G, base: usize) -> usize {
    if g.slots.hit() {
        return source_int(g.ch, 1100) as usize;
    }
    let many = if g.wide_on() { g.ch.wide(1 + MANY) } else { 0 };
    match g.ch.dev(if g.free() { 1 } else { 8 }) {
        0 if many > 0 => many - 1,
        0 => base,
        1 => 0,
        2 => 3 - base,
        3 => 3,
        4 => 122,
        5 => 130,
        6 => 260,
        _ => g.slots.light(17_000),
    }
}

/// the same packet without anything that exists only in version 5
pub fn strip(p: &MqttPacket, version: u8) -> MqttPacket {
    let mut p = p.clone();
    if let MqttPacket::Connect(c) = &mut p {
        if c.protocol_version != 5 {
            c.properties = None;
            if let Some(w) = &mut c.will {
                w.properties = None;
            }
        }
        return p;
    }
    if version == 5 {
        return p;
    }
    match &mut p {
        MqttPacket::Connack(c) => {
            c.properties = None;
            c.reason_code = None;
        }
        MqttPacket::Publish(c) => c.properties = None,
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            c.properties = None;
            c.puback_reason_code = None;
            c.pubcomp_reason_code = None;
        }
        MqttPacket::Subscribe(c) => {
            c.properties = None;
            for s in &mut c.subscriptions {
                s.nl = false;
                s.rap = false;
                s.rh = None;
            }
        }
        MqttPacket::Suback(c) => {
            c.properties = None;
            c.granted_reason_codes.clear();
            c.reason_code = None;
        }
        MqttPacket::Unsubscribe(c) => c.properties = None,
        MqttPacket::Unsuback(c) => {
            c.properties = None;
            c.granted.clear();
        }
        MqttPacket::Disconnect(c) => {
            c.properties = None;
            c.reason_code = None;
        }
        _ => {}
    }
    p
}
