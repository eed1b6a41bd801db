//! Universe of wire frames: a writer of MQTT frames that can deviate from the specification at every
//! single field. What a frame means is not decided here but by the reference model.
use crate::explore::Ch;
use crate::gen::{fill, source_text, Slots};
use crate::spec::{self, legal, prop_info, put_var, put_var_n, Ctx, Ty};
use crate::src;

pub struct W<'a, 'b> {
    pub ch: &'a mut Ch<'b>,
    pub out: Vec<u8>,
    pub full: bool,
    pub wide: bool,
    /// choices of optional parts are free instead of deviations
    pub free: bool,
    /// equal values everywhere: every text and name is "x", every number 1
    pub same: bool,
    /// of a CONNECT with free choices: 1 the flags, 2 the properties, 3 those of the will are chosen freely
    pub part: usize,
    /// the fields that take the values found in the source
    pub slots: Slots,
}

const BAD_UTF8: [&[u8]; 8] = [
    &[0xFF],
    &[0xC0, 0x80],
    &[0xED, 0xA0, 0x80],
    &[0xE2, 0x82],
    &[0xF4, 0x90, 0x80, 0x80],
    &[0x80],
    &[b'a', 0xC3],
    &[0xF0, 0x80, 0x80, 0x80],
];

fn be16(out: &mut Vec<u8>, n: usize) {
    out.push((n >> 8) as u8);
    out.push(n as u8);
}

impl<'a, 'b> W<'a, 'b> {
    fn opt(&mut self) -> bool {
        if self.free && self.part <= 1 {
            self.ch.pick(2) == 1
        } else if self.free {
            true
        } else {
            (self.ch.dev(2) == 1) ^ self.full
        }
    }
    /// length-prefixed field
    fn lp(&mut self, tag: &[u8]) {
        if self.same {
            let c: &[u8] = [&b"x"[..], b"", b"y"][self.ch.dev(3)];
            be16(&mut self.out, c.len());
            self.out.extend_from_slice(c);
            return;
        }
        let hit = self.slots.hit();
        let content: Vec<u8> = match if hit { 0 } else { self.ch.dev(7 + BAD_UTF8.len()) } {
            0 if hit => source_text(self.ch, "w").into_bytes().into_iter().take(65_535).collect(),
            0 => tag.to_vec(),
            1 => vec![],
            2 => "é€𝄞".as_bytes().to_vec(),
            3 => b"a\0b".to_vec(),
            4 => b"+/#".to_vec(),
            5 => fill("L", 130).into_bytes(),
            6 => fill("M", 260).into_bytes(),
            i => BAD_UTF8[i - 7].to_vec(),
        };
        let content = if self.wide {
            let l = crate::gen::lengths();
            let l: Vec<usize> = l.into_iter().filter(|n| *n <= 65535).collect();
            let sp = crate::gen::special_strings();
            match self.ch.wide(1 + l.len() + 256 + sp.len()) {
                0 => content,
                w if w <= l.len() => fill("w", l[w - 1]).into_bytes(),
                w if w > l.len() + 256 => sp[w - l.len() - 257].as_bytes()[..].iter().copied().take(65535).collect(),
                w => vec![(w - l.len() - 1) as u8],
            }
        } else {
            content
        };
        let n = content.len();
        let announced = match self.ch.dev(7) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => 0,
            4 => 65535,
            5 => n + 256,
            _ => n + 2,
        };
        be16(&mut self.out, announced & 0xFFFF);
        self.out.extend_from_slice(&content);
    }
    fn u8(&mut self, tag: u8, narrow: &[u8]) {
        let mut v = match self.ch.dev(1 + narrow.len()) {
            0 => tag,
            i => narrow[i - 1],
        };
        if self.wide {
            let w = self.ch.wide(257);
            if w > 0 {
                v = (w - 1) as u8
            }
        }
        self.out.push(v);
    }
    fn u16(&mut self, tag: u16) {
        if self.same {
            let v = [1, 0, 0x7878][self.ch.dev(3)];
            return be16(&mut self.out, v);
        }
        if self.slots.hit() {
            let n = src::ints(0, 65_535);
            let v = n[self.ch.pick(n.len())];
            return be16(&mut self.out, v as usize);
        }
        const N: [u16; 6] = [0, 1, 0xFF, 0x100, 0x8000, 0xFFFF];
        let mut v = match self.ch.dev(1 + N.len()) {
            0 => tag,
            i => N[i - 1],
        };
        if self.wide {
            let w = self.ch.wide(65537);
            if w > 0 {
                v = (w - 1) as u16
            }
        }
        be16(&mut self.out, v as usize);
    }
    fn u32(&mut self, tag: u32) {
        if self.same {
            let v = [1u32, 0, 0x7878][self.ch.dev(3)];
            return self.out.extend_from_slice(&v.to_be_bytes());
        }
        if self.slots.hit() {
            let n = src::ints(0, u32::MAX);
            let v = n[self.ch.pick(n.len())];
            return self.out.extend_from_slice(&v.to_be_bytes());
        }
        const N: [u32; 8] = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x8000_0000, 0xFFFF_FFFF];
        let mut v = match self.ch.dev(1 + N.len()) {
            0 => tag,
            i => N[i - 1],
        };
        if self.wide {
            let w = self.ch.wide(1 + 1024);
            if w > 0 {
                v = (((w - 1) % 256) as u32) << (8 * ((w - 1) / 256))
            }
        }
        self.out.extend_from_slice(&v.to_be_bytes());
    }
    fn var(&mut self, tag: u32) {
        if self.same {
            let v = [1, 2, 0x78][self.ch.dev(3)];
            return put_var(&mut self.out, v);
        }
        if self.slots.hit() {
            let n = src::ints(0, spec::MAXVAR);
            let v = n[self.ch.pick(n.len())];
            return put_var(&mut self.out, v);
        }
        const N: [u32; 8] = [0, 1, 127, 128, 16383, 16384, 2097151, 268435455];
        match self.ch.dev(1 + N.len() + 6) {
            0 => put_var(&mut self.out, tag),
            i if i <= N.len() => put_var(&mut self.out, N[i - 1]),
            i => match i - N.len() {
                1 => put_var_n(&mut self.out, tag, 4),
                2 => put_var_n(&mut self.out, 5, 2),
                3 => self.out.extend([0x80, 0x80, 0x80, 0x80, 0x00]),
                4 => self.out.extend([0xFF, 0xFF, 0xFF, 0xFF, 0x01]),
                5 => self.out.extend([0xFF, 0xFF, 0xFF, 0x80]),
                _ => self.out.extend([0x81, 0x80, 0x80, 0x80, 0x80, 0x01]),
            },
        }
    }
    pub fn prop(&mut self, id: u8, nth: usize) {
        self.out.push(id);
        let text = |s: &str| {
            if nth == 0 {
                s.as_bytes().to_vec()
            } else {
                format!("{s}{nth}").into_bytes()
            }
        };
        match prop_info(id).map(|p| p.0) {
            Some(Ty::Flag) => {
                // not the default
                let v = !(id == 0x17 || id == 0x25 || id >= 0x28) as u8;
                self.u8(v, &[0, 1, 2, 255])
            }
            Some(Ty::Byte) => self.u8(1, &[0, 2, 3, 255]),
            Some(Ty::U16) => self.u16(0x4100 + id as u16 + 0x100 * nth as u16),
            Some(Ty::U32) => self.u32(0x5152_0000 + id as u32),
            Some(Ty::Var) => self.var(300 + nth as u32),
            Some(Ty::Str) => self.lp(&text(&format!("s{id:02x}"))),
            Some(Ty::Bin) => self.lp(&[0x00, 0xFF, id]),
            Some(Ty::BinStr) => self.lp(&text("data")),
            Some(Ty::Pair) => {
                self.lp(b"name");
                self.lp(&text("value"));
            }
            None => self.out.extend([0, 1, 0]),
        }
    }
    fn section(&mut self, ctx: Ctx, tail_hint: usize) {
        let all = legal(ctx);
        let mut ids: Vec<u8> = vec![];
        let chosen = match self.part {
            0 => true,
            2 => ctx == Ctx::Connect,
            3 => ctx == Ctx::Will,
            _ => false,
        };
        if self.free && !chosen {
            // all or nothing, so that the flags meet both
            if self.part == 1 && self.ch.pick(2) == 1 {
                ids = all.clone();
            }
        } else if self.free {
            for i in &all {
                if self.ch.pick(2) == 1 {
                    ids.push(*i)
                }
            }
        } else if self.full {
            ids = all.clone();
            ids.push(0x26);
            if ctx == Ctx::Publish {
                ids.push(0x0B)
            }
        }
        for _ in 0..2 {
            let l = ids.len();
            let extra: [u8; 7] = [0x00, 0x04, 0x0A, 0x2B, 0x7F, 0x80, 0xFF];
            let e = self.ch.dev(1 + l + 2 * 34 + l + 1);
            if e == 0 {
            } else if e <= l {
                ids.remove(e - 1);
            } else if e <= l + 68 {
                let k = e - l - 1;
                let id = if k % 34 < 27 { spec::ALL_PROPS[k % 34] } else { extra[k % 34 - 27] };
                if k < 34 {
                    ids.insert(0, id)
                } else {
                    ids.push(id)
                }
            } else if e < l + 68 + l {
                let k = e - l - 69;
                if k + 1 < l {
                    ids.swap(k, k + 1)
                }
            } else {
                ids.reverse()
            }
        }
        let outer = std::mem::take(&mut self.out);
        let mut seen = [0usize; 256];
        for id in ids {
            let n = seen[id as usize];
            seen[id as usize] += 1;
            self.prop(id, n);
        }
        let body = std::mem::replace(&mut self.out, outer);
        let n = body.len() as u32;
        match self.ch.dev(18) {
            0 => put_var(&mut self.out, n),
            1 => put_var_n(&mut self.out, n, 3),
            2 => put_var_n(&mut self.out, n, 4),
            3 => self.out.extend([0x80 | n as u8, 0x80, 0x80, 0x80, 0x00]),
            4 => put_var(&mut self.out, n + 1),
            5 => put_var(&mut self.out, n.saturating_sub(1)),
            6 => put_var(&mut self.out, n + 2),
            7 => put_var(&mut self.out, n.saturating_sub(2)),
            8 => put_var(&mut self.out, 0),
            9 => put_var(&mut self.out, n + 3),
            10 => put_var(&mut self.out, n + tail_hint as u32),
            11 => put_var(&mut self.out, n + tail_hint as u32 + 1),
            12 => put_var(&mut self.out, 127),
            13 => put_var(&mut self.out, 16384),
            14 => put_var(&mut self.out, spec::MAXVAR),
            15 => put_var(&mut self.out, n / 2),
            16 => put_var(&mut self.out, n + tail_hint as u32 + 2),
            _ => put_var(&mut self.out, 1),
        }
        self.out.extend_from_slice(&body);
    }
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub bytes: Vec<u8>,
    pub version: u8,
}

/// one frame of any type and the version to decode it with
pub fn frame(ch: &mut Ch, wide: bool, free: bool) -> Frame {
    let version = [5u8, 4, 3][ch.pick(3)];
    let kind = 1 + ch.pick(15);
    let full = free || ch.pick(2) == 1;
    frame_of(ch, wide, free, kind, full, version)
}

/// one frame of any type, all texts, names and numbers in it equal
pub fn frame_same(ch: &mut Ch) -> Frame {
    let version = [5u8, 4, 3][ch.pick(3)];
    let kind = 1 + ch.pick(15);
    make(ch, false, false, true, kind, true, version, &mut Slots::NONE.clone())
}

/// A frame of which one field (`two`: two) takes every value out of the source, in every other respect
/// within the deviation bound. None: there is no such field in this frame.
pub fn source_frame(ch: &mut Ch, two: bool) -> Option<Frame> {
    let version = [5u8, 4, 3][ch.pick(3)];
    let kind = 1 + ch.pick(15);
    let full = ch.pick(2) == 1;
    let mut s = Slots::NONE;
    make(&mut Ch::new(&[], 0), false, false, false, kind, full, version, &mut s);
    if s.seen == 0 {
        return None;
    }
    let a = ch.pick(s.seen);
    let b = if two && a + 1 < s.seen { a + 1 + ch.pick(s.seen - a - 1) } else { usize::MAX };
    let mut s = Slots { at: [a, b], seen: 0, hits: 0 };
    let f = make(ch, false, false, false, kind, full, version, &mut s);
    if s.hits == 1 + (b != usize::MAX) as usize {
        Some(f)
    } else {
        None
    }
}

pub fn frame_of(ch: &mut Ch, wide: bool, free: bool, kind: usize, full: bool, version: u8) -> Frame {
    make(ch, wide, free, false, kind, full, version, &mut Slots::NONE.clone())
}

#[allow(clippy::too_many_arguments)]
fn make(
    ch: &mut Ch,
    wide: bool,
    free: bool,
    same: bool,
    kind: usize,
    full: bool,
    version: u8,
    slots: &mut Slots,
) -> Frame {
    let v5 = version == 5;
    let part = if kind == 1 && free { 1 + ch.pick(3) } else { 0 };
    let mut w = W { ch, out: vec![], full, wide, free, same, part, slots: *slots };
    let w = &mut w;
    let mut first = (kind as u8) << 4;
    match kind {
        1 => {
            match w.ch.dev(7) {
                0 => w.out.extend(if version == 3 { &b"\0\x06MQIsdp"[..] } else { &b"\0\x04MQTT"[..] }),
                1 => w.out.extend(if version == 3 { &b"\0\x04MQTT"[..] } else { &b"\0\x06MQIsdp"[..] }),
                2 => w.out.extend(b"\0\x04mqtt"),
                3 => w.out.extend(b"\0\x05MQTT\0"),
                4 => w.out.extend(b"\0\x03MQT"),
                5 => w.out.extend(b"\0\0"),
                _ => w.out.extend(b"\0\x04MQ\xFFT"),
            }
            w.u8(version, &[0, 1, 2, 3, 4, 5, 6, 0x83, 0x84, 0x85, 0x80, 0x86, 255]);
            let mut f = 0u8;
            if w.opt() {
                f |= 0x80
            }
            if w.opt() {
                f |= 0x40
            }
            if w.opt() {
                f |= 0x02
            }
            if w.opt() {
                f |= 4;
                let q = if free && part <= 1 { w.ch.pick(4) as u8 } else { (w.ch.dev(4) as u8 + 2 * full as u8) % 4 };
                f |= q << 3;
                if w.opt() {
                    f |= 0x20
                }
            }
            // the flag byte may contradict the content
            w.u8(f, &[f ^ 1, f ^ 2, f ^ 4, f ^ 8, f ^ 0x10, f ^ 0x20, f ^ 0x40, f ^ 0x80, f ^ 0x18, 0xFF, 0]);
            w.u16(0x003C);
            if v5 {
                w.section(Ctx::Connect, 8);
            }
            w.lp(b"client");
            if f & 4 != 0 {
                if v5 {
                    w.section(Ctx::Will, 12);
                }
                w.lp(b"will/topic");
                w.lp(b"payload");
            }
            if f & 0x80 != 0 {
                w.lp(b"user")
            }
            if f & 0x40 != 0 {
                w.lp(b"pass")
            }
        }
        2 => {
            w.u8(0, &[1, 2, 0x80, 0xFF]);
            w.u8(if full { 0 } else { 5 }, &[0, 1, 6, 0x80, 0x87, 0x9F, 0xFF]);
            if v5 {
                w.section(Ctx::Connack, 0);
            }
        }
        3 => {
            let q = if free { w.ch.pick(4) } else { (w.ch.dev(4) + full as usize) % 4 } as u8;
            first |= q << 1;
            if w.opt() {
                first |= 1
            }
            if w.opt() {
                first |= 8
            }
            w.lp(b"a/topic");
            if q > 0 {
                w.u16(0x0A0B);
            }
            let payload: &[u8] = if full { b"hello" } else { b"" };
            if v5 {
                w.section(Ctx::Publish, payload.len());
            }
            let big: Vec<u8>;
            let hit = w.slots.hit();
            let p: &[u8] = match if hit { 0 } else { w.ch.dev(6) } {
                0 if hit => {
                    big = source_text(w.ch, "P").into_bytes();
                    &big
                }
                0 => payload,
                1 => &[0],
                2 => &[0xFF, 0x00, 0x01],
                3 => {
                    big = fill("P", 9000).into_bytes();
                    &big
                }
                4 => &[],
                _ => &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
            };
            w.out.extend_from_slice(p);
            if wide {
                let n = w.ch.wide(1 + 300 + 60);
                if n > 0 {
                    let k = if n <= 300 { n } else { 16_384 - 90 + n - 300 };
                    w.out.extend(fill("Q", k).into_bytes());
                }
            }
        }
        4..=7 => {
            if kind == 6 {
                first |= 2
            }
            w.u16(0x0C0D);
            if v5 {
                let t: Vec<u8> = if kind <= 5 {
                    spec::puback_codes().iter().map(|c| c.0).collect()
                } else {
                    spec::pubcomp_codes().iter().map(|c| c.0).collect()
                };
                let tail = w.ch.dev(3);
                if tail != 1 {
                    w.u8(t[full as usize], &[0, 1, 0x10, 0x11, 0x80, 0x92, 0x97, 0x99, 0xFF]);
                    if tail != 2 {
                        w.section(Ctx::Ack, 0);
                    }
                }
            }
        }
        8 => {
            first |= 2;
            w.u16(0x0E0F);
            if v5 {
                w.section(Ctx::Subscribe, 8);
            }
            let n = (1 + full as usize + w.ch.dev(4) * 3) % 4;
            for i in 0..n {
                w.lp([&b"sub/one"[..], b"two/#", b"+"][i]);
                let o = if v5 { [0x2D, 0x12, 0x00][i] } else { [1, 2, 0][i] };
                w.u8(o, &[0, 1, 2, 3, 4, 8, 0x0C, 0x10, 0x20, 0x30, 0x40, 0x80, 0xFF]);
            }
        }
        9 => {
            w.u16(0x1011);
            if v5 {
                w.section(Ctx::Ack, 1);
            }
            let n = (1 + full as usize + w.ch.dev(4) * 3) % 4;
            for i in 0..n {
                w.u8([1, 0x80, 2][i], &[0, 1, 2, 3, 0x80, 0x81, 0x83, 0x9E, 0xA2, 0xFF]);
            }
        }
        10 => {
            first |= 2;
            w.u16(0x1213);
            if v5 {
                w.section(Ctx::Unsubscribe, 8);
            }
            let n = (1 + full as usize + w.ch.dev(4) * 3) % 4;
            for i in 0..n {
                w.lp([&b"un/one"[..], b"two/#", b"+"][i]);
            }
        }
        11 => {
            w.u16(0x1415);
            if v5 {
                w.section(Ctx::Ack, 1);
                let n = (1 + full as usize + w.ch.dev(4) * 3) % 4;
                for i in 0..n {
                    w.u8([0x11, 0x80, 0][i], &[0, 1, 0x10, 0x83, 0x87, 0x91, 0x92, 0xFF]);
                }
            }
        }
        12 | 13 => {}
        14 => {
            if v5 {
                let tail = w.ch.dev(3);
                if tail != 1 {
                    w.u8(if full { 0x8E } else { 0 }, &[0, 1, 4, 0x80, 0x88, 0xA2, 0xA3, 0xFF]);
                    if tail != 2 {
                        w.section(Ctx::Disconnect, 0);
                    }
                }
            }
        }
        _ => {
            let tail = w.ch.dev(3);
            if tail != 1 {
                w.u8(if full { 0x18 } else { 0 }, &[0, 1, 0x17, 0x19, 0x1A, 0x80, 0xFF]);
                if tail != 2 {
                    w.section(Ctx::Auth, 0);
                }
            }
        }
    }
    // trailing bytes inside the packet, or the body cut short (header adjusted)
    let l = w.out.len();
    let cut = w.ch.dev(1 + 4 + l.min(320));
    match cut {
        0 => {}
        1 => w.out.push(0),
        2 => w.out.extend([0xC0, 0x00]),
        3 => w.out.extend([0, 1, b'x', 0]),
        4 => w.out.push(0xFF),
        k => w.out.truncate(l - (k - 4)),
    }
    // first byte
    let x = w.ch.dev(17);
    let first = match x {
        0 => first,
        16 => first & 0x0F, // reserved type
        k => first ^ k as u8,
    };
    // remaining length
    let n = w.out.len() as u32;
    let mut bytes = vec![first];
    match w.ch.dev(11) {
        0 => put_var(&mut bytes, n),
        1 => put_var_n(&mut bytes, n, 2.max(if n > 127 { 3 } else { 2 })),
        2 => put_var_n(&mut bytes, n, 4),
        3 => bytes.extend([0x80 | n as u8, 0x80, 0x80, 0x80, 0x00]),
        4 => put_var(&mut bytes, n + 1),
        5 => put_var(&mut bytes, n.saturating_sub(1)),
        6 => put_var(&mut bytes, n.saturating_sub(2)),
        7 => put_var(&mut bytes, n / 2),
        8 => put_var(&mut bytes, n + 300),
        9 => put_var(&mut bytes, 0),
        _ => put_var(&mut bytes, spec::MAXVAR),
    }
    let body = std::mem::take(&mut w.out);
    bytes.extend_from_slice(&body);
    *slots = w.slots;
    Frame { bytes, version }
}

/// all values of a small generator, sequentially
pub fn all<T>(budget: u32, f: impl Fn(&mut Ch) -> T) -> Vec<T> {
    let mut out = vec![];
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        let mut ch = Ch::new(&prefix, budget);
        out.push(f(&mut ch));
        for alt in ch.alternatives().into_iter().rev() {
            stack.push(alt);
        }
    }
    out
}

/// minimal and full frames of every type and version: all well-formed
pub fn catalogue() -> Vec<Frame> {
    let mut v = vec![];
    for f in all(0, |ch| frame(ch, false, false)) {
        if !v.iter().any(|g: &Frame| g.bytes == f.bytes && g.version == f.version) {
            v.push(f)
        }
    }
    v
}
