//! Executable reference model of the MQTT 3.1 / 3.1.1 / 5.0 wire format, written from the
//! specifications. It shares no code with the crate under test: only the crate's public *data types*
//! are used, as the vocabulary in which both sides report what they read.
//!
//! Verdicts on a complete frame are three-valued, so that the checks never demand more than the
//! specification (or the crate's documentation) does:
//!   Accept(p)  well-formed: the decoder must return exactly p
//!   May(p)     tolerated irregularity: the decoder may refuse it, but if it accepts, it must return p
//!   Any        an irregularity whose reading is a matter of taste: no claim on the value
//!   Reject     malformed: the decoder must refuse it
//!   Known(k)   well-formed by the specification, but the crate's data model cannot hold it
use crate::trace;
use mqtt_packet_3_5::*;
use std::collections::BTreeMap;

pub const MAXVAR: u32 = 268_435_455;

// irregularities
pub const NONMIN: u32 = 1; // variable byte integer longer than necessary
pub const TRAIL: u32 = 2; // bytes left over at the end of the packet body
pub const BOOLV: u32 = 4; // byte-typed flag property other than 0 or 1
pub const VALUE: u32 = 8; // value outside the range the specification allows, but representable
pub const BRIDGE: u32 = 16; // protocol level with the (unofficial) bridge bit
pub const SHORT: u32 = 32; // tolerated short form
pub const STRUCTURAL: u32 = NONMIN | TRAIL | BOOLV | BRIDGE | SHORT;

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(MqttPacket),
    May(MqttPacket, u32),
    Any(u32),
    Reject(&'static str),
    Known(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ctx {
    Connect,
    Will,
    Connack,
    Publish,
    Ack, // PUBACK PUBREC PUBREL PUBCOMP SUBACK UNSUBACK
    Subscribe,
    Unsubscribe,
    Disconnect,
    Auth,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Flag,
    Byte,
    U16,
    U32,
    Var,
    Str,
    Bin,
    /// binary by the specification, held as a string by the crate
    BinStr,
    Pair,
}

/// MQTT 5.0 table 2-4
pub fn prop_info(id: u8) -> Option<(Ty, &'static [Ctx])> {
    use Ctx::*;
    use Ty::*;
    Some(match id {
        0x01 => (Flag, &[Publish, Will]),
        0x02 => (U32, &[Publish, Will]),
        0x03 => (Str, &[Publish, Will]),
        0x08 => (Str, &[Publish, Will]),
        0x09 => (Bin, &[Publish, Will]),
        0x0B => (Var, &[Publish, Subscribe]),
        0x11 => (U32, &[Connect, Connack, Disconnect]),
        0x12 => (Str, &[Connack]),
        0x13 => (U16, &[Connack]),
        0x15 => (Str, &[Connect, Connack, Auth]),
        0x16 => (BinStr, &[Connect, Connack, Auth]),
        0x17 => (Flag, &[Connect]),
        0x18 => (U32, &[Will]),
        0x19 => (Flag, &[Connect]),
        0x1A => (Str, &[Connack]),
        0x1C => (Str, &[Connack, Disconnect]),
        0x1F => (Str, &[Connack, Ack, Disconnect, Auth]),
        0x21 => (U16, &[Connect, Connack]),
        0x22 => (U16, &[Connect, Connack]),
        0x23 => (U16, &[Publish]),
        0x24 => (Byte, &[Connack]),
        0x25 => (Flag, &[Connack]),
        0x26 => (Pair, &[Connect, Will, Connack, Publish, Ack, Subscribe, Unsubscribe, Disconnect, Auth]),
        0x27 => (U32, &[Connect, Connack]),
        0x28 => (Flag, &[Connack]),
        0x29 => (Flag, &[Connack]),
        0x2A => (Flag, &[Connack]),
        _ => return None,
    })
}

pub const ALL_PROPS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F, 0x21, 0x22,
    0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A,
];

pub fn legal(ctx: Ctx) -> Vec<u8> {
    ALL_PROPS.iter().copied().filter(|p| prop_info(*p).unwrap().1.contains(&ctx)).collect()
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    N(u32),
    S(String),
    B(Vec<u8>),
    P(String, String),
}

pub type RawProps = Vec<(u8, Val)>;

#[derive(Debug, Clone, PartialEq)]
pub enum Rej {
    Bad(&'static str),
    Known(&'static str),
}
use Rej::*;
type R<T> = Result<T, Rej>;

pub struct Cur<'a> {
    b: &'a [u8],
    pos: usize,
    key: u64,
    pub anom: u32,
    /// set inside a property section: bytes of the packet after the section
    outer: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], key: u64) -> Cur<'a> {
        Cur { b, pos: 0, key, anom: 0, outer: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    fn step(&mut self, field: u64) {
        trace::model_state(self.key, field, self.left() as u64, self.outer as u64, self.anom as u64);
    }
    fn take(&mut self, n: usize, field: u64) -> R<&'a [u8]> {
        if self.left() < n {
            self.step(field | 0x8000);
            return Err(Bad("field runs past the end of what encloses it"));
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        self.step(field);
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1, 1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let s = self.take(2, 2)?;
        Ok(s[0] as u16 * 256 + s[1] as u16)
    }
    fn u32(&mut self) -> R<u32> {
        let s = self.take(4, 3)?;
        Ok(s.iter().fold(0u32, |a, b| a * 256 + *b as u32))
    }
    fn var(&mut self) -> R<u32> {
        match varint(&self.b[self.pos..]) {
            Var::Ok { value, len, minimal } => {
                self.take(len, 4)?;
                if !minimal {
                    self.anom |= NONMIN;
                }
                Ok(value)
            }
            Var::TooLong => Err(Bad("variable byte integer longer than four bytes")),
            Var::Incomplete => Err(Bad("field runs past the end of what encloses it")),
        }
    }
    fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.u16()?;
        self.take(n as usize, 5)
    }
    fn str(&mut self) -> R<String> {
        let b = self.bin()?;
        let s = utf8(b).ok_or(Bad("string is not UTF-8"))?;
        if s.contains('\0') {
            self.anom |= VALUE;
        }
        Ok(s)
    }
    /// topic names must not contain wildcards
    fn topic_name(&mut self) -> R<String> {
        let s = self.str()?;
        if s.contains('+') || s.contains('#') {
            self.anom |= VALUE;
        }
        Ok(s)
    }
    /// binary by the specification (from 3.1.1 on), a string in the crate's data model
    fn binstr(&mut self, known: &'static str, text_only: bool) -> R<String> {
        let b = self.bin()?;
        match utf8(b) {
            Some(s) => Ok(s),
            None if text_only => Err(Bad("string is not UTF-8")),
            None => Err(Known(known)),
        }
    }
}

/// UTF-8 as of RFC 3629, written out (Unicode table 3-7)
pub fn utf8(b: &[u8]) -> Option<String> {
    let mut i = 0;
    let mut out = String::new();
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi, init) = match c {
            0x00..=0x7F => {
                out.push(c as char);
                i += 1;
                continue;
            }
            0xC2..=0xDF => (1, 0x80, 0xBF, c as u32 & 0x1F),
            0xE0 => (2, 0xA0, 0xBF, 0),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF, c as u32 & 0x0F),
            0xED => (2, 0x80, 0x9F, 0x0D),
            0xF0 => (3, 0x90, 0xBF, 0),
            0xF1..=0xF3 => (3, 0x80, 0xBF, c as u32 & 0x07),
            0xF4 => (3, 0x80, 0x8F, 4),
            _ => return None,
        };
        let mut v: u32 = init;
        for k in 1..=n {
            let d = *b.get(i + k)?;
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if d < l || d > h {
                return None;
            }
            v = v * 64 + (d as u32 & 0x3F);
        }
        out.push(char::from_u32(v)?);
        i += n + 1;
    }
    Some(out)
}

pub enum Var {
    Ok { value: u32, len: usize, minimal: bool },
    TooLong,
    Incomplete,
}

pub fn varint(b: &[u8]) -> Var {
    let mut v = 0u32;
    for i in 0..4 {
        match b.get(i) {
            None => return Var::Incomplete,
            Some(x) => {
                v |= ((*x & 0x7F) as u32) << (7 * i);
                if *x < 0x80 {
                    return Var::Ok { value: v, len: i + 1, minimal: i == 0 || *x != 0 };
                }
            }
        }
    }
    Var::TooLong
}

pub fn put_var(out: &mut Vec<u8>, v: u32) {
    let n = if v < 0x80 {
        1
    } else if v < 0x4000 {
        2
    } else if v < 0x20_0000 {
        3
    } else {
        4
    };
    put_var_n(out, v, n)
}

/// exactly n bytes (non-minimal if n is more than needed)
pub fn put_var_n(out: &mut Vec<u8>, v: u32, n: usize) {
    for i in 0..n {
        let d = ((v >> (7 * i)) & 0x7F) as u8;
        out.push(if i + 1 < n { d | 0x80 } else { d });
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Header {
    /// the remaining length is not a variable byte integer: the stream cannot be framed any more
    Unframable,
    Incomplete,
    Ok {
        first: u8,
        hdr: usize,
        len: usize,
        minimal: bool,
    },
}

pub fn header(b: &[u8]) -> Header {
    if b.is_empty() {
        return Header::Incomplete;
    }
    match varint(&b[1..]) {
        Var::Incomplete => Header::Incomplete,
        Var::TooLong => Header::Unframable,
        Var::Ok { value, len, minimal } => Header::Ok { first: b[0], hdr: 1 + len, len: value as usize, minimal },
    }
}

/// one step of the reference stream decoder
#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Frame { start: usize, end: usize, verdict: Verdict },
    Truncated { start: usize },
    Unframable { start: usize },
}

pub fn stream(b: &[u8], version: impl Fn(usize) -> u8) -> Vec<Step> {
    let mut out = vec![];
    let mut pos = 0;
    while pos < b.len() {
        match header(&b[pos..]) {
            Header::Incomplete => {
                out.push(Step::Truncated { start: pos });
                break;
            }
            Header::Unframable => {
                out.push(Step::Unframable { start: pos });
                break;
            }
            Header::Ok { first, hdr, len, minimal } => {
                let end = pos + hdr + len;
                if end > b.len() {
                    out.push(Step::Truncated { start: pos });
                    break;
                }
                let verdict = frame(first, &b[pos + hdr..end], version(out.len()), minimal);
                out.push(Step::Frame { start: pos, end, verdict });
                pos = end;
            }
        }
    }
    out
}

pub struct Parsed {
    pub packet: MqttPacket,
    pub anom: u32,
    pub props: RawProps,
    pub will_props: RawProps,
}

pub fn frame(first: u8, body: &[u8], version: u8, minimal: bool) -> Verdict {
    match parse(first, body, version, minimal) {
        Err(Bad(r)) => Verdict::Reject(r),
        Err(Known(k)) => Verdict::Known(k),
        Ok(p) => {
            if p.anom == 0 {
                Verdict::Accept(p.packet)
            } else if p.anom & (BOOLV | BRIDGE) != 0 {
                Verdict::Any(p.anom)
            } else {
                Verdict::May(p.packet, p.anom)
            }
        }
    }
}

pub fn parse(first: u8, body: &[u8], version: u8, minimal: bool) -> R<Parsed> {
    let ty = first / 16;
    let flags = first % 16;
    let key = first as u64 * 256 + version as u64;
    trace::model_start(key);
    let mut c = Cur::new(body, key);
    if !minimal {
        c.anom |= NONMIN;
    }
    c.step(0);
    // table 2-2 of both specifications
    let want = match ty {
        0 => return Err(Bad("reserved packet type")),
        6 | 8 | 10 => Some(2),
        3 => None,
        _ => Some(0),
    };
    if let Some(w) = want {
        if flags != w {
            return Err(Bad("wrong fixed header flags"));
        }
    }
    if ty == 3 && (flags / 2) % 4 == 3 {
        return Err(Bad("QoS 3"));
    }
    let v5 = version == 5;
    let mut props = vec![];
    let mut will_props = vec![];
    let packet = match ty {
        1 => connect(&mut c, &mut props, &mut will_props)?,
        2 => connack(&mut c, v5, &mut props)?,
        3 => publish(&mut c, v5, flags, &mut props)?,
        4..=7 => ack(&mut c, v5, ty, &mut props)?,
        8 => subscribe(&mut c, v5, &mut props)?,
        9 => suback(&mut c, v5, &mut props)?,
        10 => unsubscribe(&mut c, v5, &mut props)?,
        11 => unsuback(&mut c, v5, &mut props)?,
        12 => MqttPacket::Pingreq,
        13 => MqttPacket::Pingresp,
        14 => disconnect(&mut c, v5, &mut props)?,
        15 => auth(&mut c, v5, &mut props)?,
        _ => unreachable!(),
    };
    if c.left() > 0 {
        c.anom |= TRAIL;
    }
    c.step(99);
    Ok(Parsed { packet, anom: c.anom, props, will_props })
}

/// reads a property section; None if it is empty
fn section(c: &mut Cur, ctx: Ctx, raw: &mut RawProps) -> R<bool> {
    let n = c.var()? as usize;
    if n > c.left() {
        return Err(Bad("property section runs past the end of the packet"));
    }
    if n == 0 {
        return Ok(false);
    }
    let body = &c.b[c.pos..c.pos + n];
    c.pos += n;
    let mut s = Cur { b: body, pos: 0, key: c.key * 16 + ctx as u64 + 1, anom: c.anom, outer: c.left() };
    while s.left() > 0 {
        let id = s.u8()?;
        let (ty, ctxs) = prop_info(id).ok_or(Bad("unknown property"))?;
        if !ctxs.contains(&ctx) {
            return Err(Bad("property not allowed here"));
        }
        let repeatable = id == 0x26 || (id == 0x0B && ctx == Ctx::Publish);
        if !repeatable && raw.iter().any(|(i, _)| *i == id) {
            return Err(Bad("property repeated"));
        }
        let v = match ty {
            Ty::Flag => {
                let b = s.u8()?;
                if b > 1 {
                    s.anom |= BOOLV;
                }
                Val::N((b != 0) as u32)
            }
            Ty::Byte => Val::N(s.u8()? as u32),
            Ty::U16 => Val::N(s.u16()? as u32),
            Ty::U32 => Val::N(s.u32()?),
            Ty::Var => Val::N(s.var()?),
            Ty::Str => Val::S(if id == 0x08 { s.topic_name()? } else { s.str()? }),
            Ty::Bin => Val::B(s.bin()?.to_vec()),
            Ty::BinStr => Val::S(s.binstr("authentication data that is not UTF-8", false)?),
            Ty::Pair => {
                let k = s.str()?;
                let v = s.str()?;
                Val::P(k, v)
            }
        };
        match (id, &v) {
            (0x24, Val::N(x)) if *x > 1 => s.anom |= VALUE,
            (0x21 | 0x27 | 0x23 | 0x0B, Val::N(0)) => s.anom |= VALUE,
            _ => {}
        }
        raw.push((id, v));
    }
    // authentication data needs a method
    if raw.iter().any(|(i, _)| *i == 0x16) && !raw.iter().any(|(i, _)| *i == 0x15) {
        s.anom |= VALUE;
    }
    c.anom |= s.anom;
    c.step(98);
    Ok(true)
}

// views of a raw property list
fn n(raw: &RawProps, id: u8) -> Option<u32> {
    raw.iter().find(|(i, _)| *i == id).map(|(_, v)| match v {
        Val::N(x) => *x,
        _ => unreachable!(),
    })
}
fn n16(raw: &RawProps, id: u8) -> Option<u16> {
    n(raw, id).map(|x| x as u16)
}
fn flag(raw: &RawProps, id: u8, default: bool) -> bool {
    n(raw, id).map(|x| x != 0).unwrap_or(default)
}
fn s(raw: &RawProps, id: u8) -> Option<String> {
    raw.iter().find(|(i, _)| *i == id).map(|(_, v)| match v {
        Val::S(x) => x.clone(),
        _ => unreachable!(),
    })
}
fn bin(raw: &RawProps, id: u8) -> Vec<u8> {
    raw.iter()
        .find(|(i, _)| *i == id)
        .map(|(_, v)| match v {
            Val::B(x) => x.clone(),
            _ => unreachable!(),
        })
        .unwrap_or_default()
}
fn ups(raw: &RawProps) -> UserProperties {
    let mut m = UserProperties::new();
    for (i, v) in raw {
        if let (0x26, Val::P(k, v)) = (*i, v) {
            match m.get_mut(k) {
                Some(l) => l.push(v.clone()),
                None => {
                    m.insert(k.clone(), vec![v.clone()]);
                }
            }
        }
    }
    m
}
fn ids(raw: &RawProps) -> Vec<u32> {
    raw.iter()
        .filter_map(|(i, v)| match (i, v) {
            (0x0B, Val::N(x)) => Some(*x),
            _ => None,
        })
        .collect()
}

fn connect(c: &mut Cur, raw: &mut RawProps, wraw: &mut RawProps) -> R<MqttPacket> {
    let name = c.bin()?;
    let protocol_id = match name {
        b"MQTT" => Protocol::Mqtt,
        b"MQIsdp" => Protocol::MQIsdp,
        _ => return Err(Bad("unknown protocol name")),
    };
    let mut level = c.u8()?;
    if level >= 128 {
        level -= 128;
        c.anom |= BRIDGE;
    }
    if !(3..=5).contains(&level) {
        return Err(Bad("unknown protocol level"));
    }
    if (protocol_id == Protocol::MQIsdp) != (level == 3) {
        c.anom |= VALUE;
    }
    c.key = c.key * 8 + level as u64;
    let f = c.u8()?;
    c.key = c.key * 256 + f as u64;
    if f & 1 != 0 {
        return Err(Bad("reserved CONNECT flag"));
    }
    let clean_session = f & 2 != 0;
    let has_will = f & 4 != 0;
    let will_qos = (f >> 3) & 3;
    let will_retain = f & 0x20 != 0;
    let has_pass = f & 0x40 != 0;
    let has_user = f & 0x80 != 0;
    if !has_will && (will_qos != 0 || will_retain) {
        return Err(Bad("will bits without a will"));
    }
    if will_qos == 3 {
        return Err(Bad("QoS 3"));
    }
    if has_pass && !has_user && level < 5 {
        c.anom |= VALUE;
    }
    let keep_alive = c.u16()?;
    let mut properties = None;
    if level == 5 && section(c, Ctx::Connect, raw)? {
        properties = Some(ConnectProperties {
            session_expiry_interval: n(raw, 0x11).unwrap_or(0),
            receive_maximum: n16(raw, 0x21).unwrap_or(65535),
            maximum_packet_size: n(raw, 0x27),
            topic_alias_maximum: n16(raw, 0x22).unwrap_or(0),
            request_response_information: flag(raw, 0x19, false),
            request_problem_information: flag(raw, 0x17, true),
            user_properties: ups(raw),
            authentication_method: s(raw, 0x15),
            authentication_data: s(raw, 0x16),
        });
    }
    let client_id = c.str()?;
    if client_id.is_empty() && (level == 3 || (level == 4 && !clean_session)) {
        c.anom |= VALUE;
    }
    let mut will = None;
    if has_will {
        let mut wp = None;
        if level == 5 && section(c, Ctx::Will, wraw)? {
            wp = Some(WillProperties {
                payload_format_indicator: flag(wraw, 1, false),
                message_expiry_interval: n(wraw, 2),
                content_type: s(wraw, 3),
                response_topic: s(wraw, 8),
                correlation_data: bin(wraw, 9),
                will_delay_interval: n(wraw, 0x18).unwrap_or(0),
                user_properties: ups(wraw),
            });
        }
        let topic = c.topic_name()?;
        if topic.is_empty() {
            c.anom |= VALUE;
        }
        let payload = c.binstr("will payload that is not UTF-8", level == 3)?;
        will = Some(LastWill {
            topic: Some(topic),
            payload: Some(payload),
            qos: will_qos,
            retain: will_retain,
            properties: wp,
        });
    }
    let user_name = if has_user { Some(c.str()?) } else { None };
    let password = if has_pass { Some(c.binstr("password that is not UTF-8", level == 3)?) } else { None };
    Ok(MqttPacket::Connect(ConnectPacket {
        client_id,
        protocol_version: level,
        protocol_id,
        clean_session,
        keep_alive,
        user_name,
        password,
        will,
        properties,
    }))
}

fn connack(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    let f = c.u8()?;
    if f > 1 {
        return Err(Bad("reserved CONNACK flags"));
    }
    let session_present = f == 1;
    let mut p = ConnackPacket { return_code: None, reason_code: None, session_present, properties: None };
    if v5 {
        if c.left() == 0 {
            c.anom |= SHORT;
            p.reason_code = Some(0);
            return Ok(MqttPacket::Connack(p));
        }
        let rc = c.u8()?;
        if !connack_codes().contains(&rc) || (session_present && rc != 0) {
            c.anom |= VALUE;
        }
        p.reason_code = Some(rc);
        if c.left() == 0 {
            c.anom |= SHORT;
            return Ok(MqttPacket::Connack(p));
        }
        if section(c, Ctx::Connack, raw)? {
            p.properties = Some(ConnackProperties {
                session_expiry_interval: n(raw, 0x11).unwrap_or(0),
                assigned_client_identifier: s(raw, 0x12),
                server_keep_alive: n16(raw, 0x13),
                authentication_method: s(raw, 0x15),
                authentication_data: s(raw, 0x16),
                response_information: s(raw, 0x1A),
                server_reference: s(raw, 0x1C),
                reason_string: s(raw, 0x1F),
                receive_maximum: n16(raw, 0x21).unwrap_or(65535),
                topic_alias_maximum: n16(raw, 0x22).unwrap_or(0),
                maximum_qos: n(raw, 0x24).unwrap_or(2) as u8,
                retain_available: flag(raw, 0x25, true),
                user_properties: ups(raw),
                maximum_packet_size: n(raw, 0x27),
                wildcard_subscription_available: flag(raw, 0x28, true),
                subscription_identifiers_available: flag(raw, 0x29, true),
                shared_subscription_available: flag(raw, 0x2A, true),
                is_default: false,
            });
        }
    } else {
        let rc = c.u8()?;
        if rc > 5 || (session_present && rc != 0) {
            c.anom |= VALUE;
        }
        p.return_code = Some(rc);
    }
    Ok(MqttPacket::Connack(p))
}

pub fn connack_codes() -> &'static [u8] {
    &[
        0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A,
        0x9B, 0x9C, 0x9D, 0x9F,
    ]
}

fn packet_id(c: &mut Cur) -> R<u16> {
    let id = c.u16()?;
    if id == 0 {
        c.anom |= VALUE;
    }
    Ok(id)
}

fn publish(c: &mut Cur, v5: bool, flags: u8, raw: &mut RawProps) -> R<MqttPacket> {
    let qos = (flags / 2) % 4;
    let dup = flags >= 8;
    if dup && qos == 0 {
        c.anom |= VALUE;
    }
    let topic = c.topic_name()?;
    let message_id = if qos > 0 { Some(packet_id(c)?) } else { None };
    let mut properties = None;
    if v5 && section(c, Ctx::Publish, raw)? {
        properties = Some(PublishProperties {
            payload_format_indicator: flag(raw, 1, false),
            message_expiry_interval: n(raw, 2),
            content_type: s(raw, 3),
            response_topic: s(raw, 8),
            correlation_data: bin(raw, 9),
            subscription_identifiers: ids(raw),
            topic_alias: n16(raw, 0x23),
            user_properties: ups(raw),
        });
    }
    if topic.is_empty() && n(raw, 0x23).is_none() {
        c.anom |= VALUE;
    }
    let l = c.left();
    let payload = c.take(l, 6)?.to_vec();
    Ok(MqttPacket::Publish(PublishPacket { dup, qos, retain: flags & 1 != 0, topic, message_id, payload, properties }))
}

fn ackprops(raw: &RawProps) -> ConfirmationProperties {
    ConfirmationProperties { reason_string: s(raw, 0x1F), user_properties: ups(raw) }
}

fn ack(c: &mut Cur, v5: bool, ty: u8, raw: &mut RawProps) -> R<MqttPacket> {
    let message_id = packet_id(c)?;
    let cmd = match ty {
        4 => PacketType::Puback,
        5 => PacketType::Pubrec,
        6 => PacketType::Pubrel,
        _ => PacketType::Pubcomp,
    };
    let mut p =
        ConfirmationPacket { cmd, puback_reason_code: None, pubcomp_reason_code: None, properties: None, message_id };
    if v5 {
        let code = if c.left() > 0 { c.u8()? } else { 0 };
        if ty <= 5 {
            p.puback_reason_code = Some(puback_code(code).ok_or(Bad("undefined reason code"))?);
        } else {
            p.pubcomp_reason_code = Some(pubcomp_code(code).ok_or(Bad("undefined reason code"))?);
        }
        if c.left() > 0 && section(c, Ctx::Ack, raw)? {
            p.properties = Some(ackprops(raw));
        }
    }
    Ok(match ty {
        4 => MqttPacket::Puback(p),
        5 => MqttPacket::Pubrec(p),
        6 => MqttPacket::Pubrel(p),
        _ => MqttPacket::Pubcomp(p),
    })
}

fn subscribe(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    let message_id = packet_id(c)?;
    let mut properties = None;
    if v5 && section(c, Ctx::Subscribe, raw)? {
        properties =
            Some(SubscribeProperties { subscription_identifier: n(raw, 0x0B).unwrap_or(0), user_properties: ups(raw) });
    }
    let mut subscriptions = vec![];
    while c.left() > 0 {
        let topic = c.str()?;
        if topic.is_empty() {
            c.anom |= VALUE;
        }
        let o = c.u8()?;
        if o & (if v5 { 0xC0 } else { 0xFC }) != 0 {
            return Err(Bad("reserved subscription option bits"));
        }
        let qos = match o % 4 {
            0 => QoS::QoS0,
            1 => QoS::QoS1,
            2 => QoS::QoS2,
            _ => return Err(Bad("QoS 3")),
        };
        let rh = o / 16;
        if rh == 3 {
            return Err(Bad("retain handling 3"));
        }
        subscriptions.push(Subscription {
            topic,
            qos,
            nl: v5 && o & 4 != 0,
            rap: v5 && o & 8 != 0,
            rh: if v5 { Some(rh) } else { None },
        });
    }
    if subscriptions.is_empty() {
        return Err(Bad("no payload"));
    }
    Ok(MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties, message_id }))
}

fn suback(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    let message_id = packet_id(c)?;
    let mut p =
        SubackPacket { reason_code: None, message_id, properties: None, granted_reason_codes: vec![], granted: vec![] };
    if v5 && section(c, Ctx::Ack, raw)? {
        p.properties = Some(ackprops(raw));
    }
    if c.left() == 0 {
        return Err(Bad("no payload"));
    }
    while c.left() > 0 {
        let b = c.u8()?;
        if v5 {
            p.granted_reason_codes.push(suback_code(b).ok_or(Bad("undefined reason code"))?);
        } else {
            p.granted.push(granted(b).ok_or(Bad("undefined return code"))?);
        }
    }
    Ok(MqttPacket::Suback(p))
}

fn unsubscribe(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    let message_id = packet_id(c)?;
    let mut properties = None;
    if v5 && section(c, Ctx::Unsubscribe, raw)? {
        properties = Some(UnsubscribeProperties { user_properties: ups(raw) });
    }
    let mut unsubscriptions = vec![];
    while c.left() > 0 {
        let t = c.str()?;
        if t.is_empty() {
            c.anom |= VALUE;
        }
        unsubscriptions.push(t);
    }
    if unsubscriptions.is_empty() {
        return Err(Bad("no payload"));
    }
    Ok(MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id, properties, unsubscriptions }))
}

fn unsuback(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    if !v5 && c.left() != 2 {
        return Err(Bad("pre-5 UNSUBACK must be two bytes long"));
    }
    let message_id = packet_id(c)?;
    let mut p = UnsubackPacket { message_id, granted: vec![], properties: None };
    if v5 {
        if section(c, Ctx::Ack, raw)? {
            p.properties = Some(ackprops(raw));
        }
        if c.left() == 0 {
            c.anom |= VALUE;
        }
        while c.left() > 0 {
            let b = c.u8()?;
            p.granted.push(unsuback_code(b).ok_or(Bad("undefined reason code"))?);
        }
    }
    Ok(MqttPacket::Unsuback(p))
}

fn disconnect(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    let mut p = DisconnectPacket { reason_code: None, properties: None };
    if v5 {
        let code = if c.left() > 0 { c.u8()? } else { 0 };
        p.reason_code = Some(disconnect_code(code).ok_or(Bad("undefined reason code"))?);
        if c.left() > 0 && section(c, Ctx::Disconnect, raw)? {
            p.properties = Some(DisconnectProperties {
                session_expiry_interval: n(raw, 0x11),
                server_reference: s(raw, 0x1C),
                reason_string: s(raw, 0x1F),
                user_properties: ups(raw),
            });
        }
    }
    Ok(MqttPacket::Disconnect(p))
}

fn auth(c: &mut Cur, v5: bool, raw: &mut RawProps) -> R<MqttPacket> {
    if !v5 {
        return Err(Bad("AUTH before version 5"));
    }
    if c.left() == 0 {
        return Ok(MqttPacket::Auth(AuthPacket { reason_code: AuthCode::Success, properties: None }));
    }
    let b = c.u8()?;
    let reason_code = auth_code(b).ok_or(Bad("undefined reason code"))?;
    let mut properties = None;
    if c.left() == 0 {
        c.anom |= SHORT;
    } else if section(c, Ctx::Auth, raw)? {
        if s(raw, 0x15).is_none() {
            c.anom |= VALUE;
        }
        properties = Some(AuthProperties {
            authentication_method: s(raw, 0x15).unwrap_or_default(),
            authentication_data: s(raw, 0x16),
            reason_string: s(raw, 0x1F),
            user_properties: ups(raw),
        });
    }
    Ok(MqttPacket::Auth(AuthPacket { reason_code, properties }))
}

// ------------------------------------------------------------------ code tables

pub fn granted(b: u8) -> Option<Granted> {
    Some(match b {
        0 => Granted::QoS0,
        1 => Granted::QoS1,
        2 => Granted::QoS2,
        0x80 => Granted::Failure,
        _ => return None,
    })
}
pub fn qos(b: u8) -> Option<QoS> {
    Some(match b {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        2 => QoS::QoS2,
        _ => return None,
    })
}
macro_rules! table {
    ($fn:ident, $list:ident, $t:ident, $($b:literal => $v:ident),* $(,)?) => {
        pub fn $fn(b: u8) -> Option<$t> {
            match b { $($b => Some($t::$v),)* _ => None }
        }
        pub fn $list() -> Vec<(u8, $t)> { vec![$(($b, $t::$v)),*] }
    };
}
// MQTT 5.0 tables 3-4 (PUBACK, PUBREC), 3-6 (PUBREL, PUBCOMP), 3-8 (SUBACK), 3-9 (UNSUBACK), 3-10, 3-11
table!(puback_code, puback_codes, PubackPubrecCode,
    0x00 => Success, 0x10 => NoMatchingSubscribers, 0x80 => UnspecifiedError,
    0x83 => ImplementationSpecificError, 0x87 => NotAuthorized, 0x90 => TopicNameInvalid,
    0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded, 0x99 => PayloadFormatInvalid);
table!(pubcomp_code, pubcomp_codes, PubcompPubrelCode,
    0x00 => Success, 0x92 => PacketIdentifierNotFound);
table!(suback_code, suback_codes, SubscriptionReasonCode,
    0x00 => GrantedQoS0, 0x01 => GrantedQoS1, 0x02 => GrantedQoS2, 0x80 => UnspecifiedError,
    0x83 => ImplementationSpecificError, 0x87 => NotAuthorized, 0x8F => TopicFilterInvalid,
    0x91 => PacketIdentifierInUse, 0x97 => QuotaExceeded, 0x9E => SharedSubscriptionsNotSupported,
    0xA1 => SubscriptionIdentifiersNotSupported, 0xA2 => WildcardSubscriptionsNotSupported);
table!(unsuback_code, unsuback_codes, UnsubackCode,
    0x00 => Success, 0x11 => NoSubscriptionExisted, 0x80 => UnspecifiedError,
    0x83 => ImplementationSpecificError, 0x87 => NotAuthorized, 0x8F => TopicFilterInvalid,
    0x91 => PacketIdentifierInUse);
table!(disconnect_code, disconnect_codes, DisconnectCode,
    0x00 => NormalDisconnection, 0x04 => DisconnectWithWillMessage, 0x80 => UnspecifiedError,
    0x81 => MalformedPacket, 0x82 => ProtocolError, 0x83 => ImplementationSpecificError,
    0x87 => NotAuthorized, 0x89 => ServerBusy, 0x8B => ServerShuttingDown,
    0x8D => KeepAliveTimeout, 0x8E => SessionTakenVver, 0x8F => TopicFilterInvalid,
    0x90 => TopicNameInvalid, 0x93 => ReceiveMaximumExceeded, 0x94 => TopicAliasInvalid,
    0x95 => PacketTooLarge, 0x96 => MessageRateTooHigh, 0x97 => QuotaExceeded,
    0x98 => AdministrativeAction, 0x99 => PayloadFormatInvalid, 0x9A => RetainNotSupported,
    0x9B => QoSNotSupported, 0x9C => UseAnotherServer, 0x9D => ServerMoved,
    0x9E => SharedSubscriptionsNotSupported, 0x9F => ConnectionRateExceeded,
    0xA0 => MaximumConnectTime, 0xA1 => SubscriptionIdentifiersNotSupported,
    0xA2 => WildcardSubscriptionsNotSupported);
table!(auth_code, auth_codes, AuthCode,
    0x00 => Success, 0x18 => ContinueAuthentication, 0x19 => ReAuthenticate);

// ------------------------------------------------------------------ meaning of property lists

/// The meaning of a property section: values equal to the default the specification assigns are
/// dropped, user properties are grouped by name, everything else is keyed by its code.
pub fn meaning(ctx: Ctx, raw: &RawProps) -> BTreeMap<(u8, String), Vec<Val>> {
    let mut m: BTreeMap<(u8, String), Vec<Val>> = BTreeMap::new();
    for (id, v) in raw {
        let default = match (ctx, id) {
            (Ctx::Connect, 0x11) => Some(0),
            (Ctx::Connect | Ctx::Connack, 0x21) => Some(65535),
            (Ctx::Connect | Ctx::Connack, 0x22) => Some(0),
            (Ctx::Connect, 0x19) => Some(0),
            (Ctx::Connect, 0x17) => Some(1),
            (Ctx::Connack, 0x25 | 0x28 | 0x29 | 0x2A) => Some(1),
            (Ctx::Connack, 0x24) => Some(2),
            (Ctx::Will, 0x18) => Some(0),
            (Ctx::Will | Ctx::Publish, 0x01) => Some(0),
            _ => None,
        };
        if let (Some(d), Val::N(x)) = (default, v) {
            if *x == d {
                continue;
            }
        }
        // an empty correlation data is how the data model says "none"
        if *id == 9 && *v == Val::B(vec![]) {
            continue;
        }
        let key = match v {
            Val::P(k, _) => (*id, k.clone()),
            _ => (*id, String::new()),
        };
        m.entry(key).or_default().push(v.clone());
    }
    m
}

// ------------------------------------------------------------------ packets: equivalence, expectation, class

fn canon_up(u: &mut UserProperties) {
    u.retain(|_, v| !v.is_empty());
}

/// Normal form under "absent, empty and default mean the same".
pub fn canon(p: &MqttPacket) -> MqttPacket {
    let mut p = p.clone();
    fn ackp(o: &mut Option<ConfirmationProperties>) {
        if let Some(x) = o {
            canon_up(&mut x.user_properties);
            if x.reason_string.is_none() && x.user_properties.is_empty() {
                *o = None;
            }
        }
    }
    match &mut p {
        MqttPacket::Connect(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                let d = ConnectProperties {
                    session_expiry_interval: 0,
                    receive_maximum: 65535,
                    maximum_packet_size: None,
                    topic_alias_maximum: 0,
                    request_response_information: false,
                    request_problem_information: true,
                    user_properties: UserProperties::new(),
                    authentication_method: None,
                    authentication_data: None,
                };
                if *x == d {
                    c.properties = None;
                }
            }
            if let Some(w) = &mut c.will {
                if w.payload.is_none() {
                    w.payload = Some(String::new());
                }
                if w.topic.is_none() {
                    w.topic = Some(String::new());
                }
                if let Some(x) = &mut w.properties {
                    canon_up(&mut x.user_properties);
                    let d = WillProperties {
                        payload_format_indicator: false,
                        message_expiry_interval: None,
                        content_type: None,
                        response_topic: None,
                        correlation_data: vec![],
                        will_delay_interval: 0,
                        user_properties: UserProperties::new(),
                    };
                    if *x == d {
                        w.properties = None;
                    }
                }
            }
        }
        MqttPacket::Connack(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                x.is_default = false;
                let d = ConnackProperties {
                    session_expiry_interval: 0,
                    assigned_client_identifier: None,
                    server_keep_alive: None,
                    authentication_method: None,
                    authentication_data: None,
                    response_information: None,
                    server_reference: None,
                    reason_string: None,
                    receive_maximum: 65535,
                    topic_alias_maximum: 0,
                    maximum_qos: 2,
                    retain_available: true,
                    user_properties: UserProperties::new(),
                    maximum_packet_size: None,
                    wildcard_subscription_available: true,
                    subscription_identifiers_available: true,
                    shared_subscription_available: true,
                    is_default: false,
                };
                if *x == d {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Publish(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                let d = PublishProperties {
                    payload_format_indicator: false,
                    message_expiry_interval: None,
                    content_type: None,
                    response_topic: None,
                    correlation_data: vec![],
                    subscription_identifiers: vec![],
                    topic_alias: None,
                    user_properties: UserProperties::new(),
                };
                if *x == d {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            ackp(&mut c.properties)
        }
        MqttPacket::Suback(c) => ackp(&mut c.properties),
        MqttPacket::Unsuback(c) => ackp(&mut c.properties),
        MqttPacket::Subscribe(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                if x.subscription_identifier == 0 && x.user_properties.is_empty() {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Unsubscribe(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                if x.user_properties.is_empty() {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Disconnect(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
                if *x
                    == (DisconnectProperties {
                        session_expiry_interval: None,
                        server_reference: None,
                        reason_string: None,
                        user_properties: UserProperties::new(),
                    })
                {
                    c.properties = None;
                }
            }
        }
        MqttPacket::Auth(c) => {
            if let Some(x) = &mut c.properties {
                canon_up(&mut x.user_properties);
            }
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    p
}

/// What is left of a packet on the wire of the given version, in normal form.
pub fn expected(p: &MqttPacket, version: u8) -> MqttPacket {
    let mut p = p.clone();
    let v5 = version == 5;
    match &mut p {
        MqttPacket::Connect(c) => {
            if c.protocol_version != 5 {
                c.properties = None;
                if let Some(w) = &mut c.will {
                    w.properties = None;
                }
            }
        }
        MqttPacket::Connack(c) => {
            if v5 {
                c.return_code = None;
            } else {
                c.reason_code = None;
                c.properties = None;
            }
        }
        MqttPacket::Publish(c) => {
            if c.qos == 0 {
                c.message_id = None;
            }
            if !v5 {
                c.properties = None;
            }
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            if !v5 {
                c.properties = None;
                c.puback_reason_code = None;
                c.pubcomp_reason_code = None;
            }
        }
        MqttPacket::Subscribe(c) => {
            c.qos = 1;
            if !v5 {
                c.properties = None;
                for s in &mut c.subscriptions {
                    s.nl = false;
                    s.rap = false;
                    s.rh = None;
                }
            }
        }
        MqttPacket::Suback(c) => {
            c.reason_code = None;
            if v5 {
                c.granted.clear();
            } else {
                c.granted_reason_codes.clear();
                c.properties = None;
            }
        }
        MqttPacket::Unsubscribe(c) => {
            c.qos = 1;
            if !v5 {
                c.properties = None;
            }
        }
        MqttPacket::Unsuback(c) => {
            if !v5 {
                c.granted.clear();
                c.properties = None;
            }
        }
        MqttPacket::Disconnect(c) => {
            if v5 {
                if c.reason_code.is_none() {
                    c.reason_code = Some(DisconnectCode::NormalDisconnection);
                }
            } else {
                c.reason_code = None;
                c.properties = None;
            }
        }
        MqttPacket::Auth(_) | MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    canon(&p)
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Class {
    /// valid for this version: must encode
    Must,
    /// encodable, but with a value the specification does not allow: may be refused
    May,
    /// not representable: must be refused
    Refuse(&'static str),
}

struct Cl {
    may: bool,
    refuse: Option<&'static str>,
    size: usize,
}

impl Cl {
    fn refuse(&mut self, why: &'static str) {
        if self.refuse.is_none() {
            self.refuse = Some(why)
        }
    }
    fn st(&mut self, s: &str) {
        if s.len() > 65535 {
            self.refuse("string over 65535 bytes")
        }
        if s.as_bytes().contains(&0) {
            self.may = true
        }
        self.size += 2 + s.len();
    }
    fn topic(&mut self, s: &str) {
        if s.contains('+') || s.contains('#') {
            self.may = true
        }
        self.st(s)
    }
    fn ost(&mut self, s: &Option<String>) {
        if let Some(s) = s {
            self.size += 1;
            self.st(s)
        }
    }
    fn bin(&mut self, s: &[u8]) {
        if s.len() > 65535 {
            self.refuse("binary field over 65535 bytes")
        }
        self.size += 2 + s.len();
    }
    fn ups(&mut self, u: &UserProperties) {
        for (k, vs) in u {
            if vs.is_empty() {
                continue;
            }
            for v in vs {
                self.size += 1;
                self.st(k);
                self.st(v);
            }
        }
    }
    fn id(&mut self, id: u16) {
        if id == 0 {
            self.may = true
        }
    }
    fn may_if(&mut self, b: bool) {
        if b {
            self.may = true
        }
    }
    fn ackp(&mut self, v5: bool, o: &Option<ConfirmationProperties>) {
        if let (true, Some(x)) = (v5, o) {
            self.ost(&x.reason_string);
            self.ups(&x.user_properties);
        }
    }
}

/// Must / May / Refuse for encoding p as `version`.
pub fn class(p: &MqttPacket, version: u8) -> Class {
    let mut c = Cl { may: false, refuse: None, size: 0 };
    let v5 = version == 5;
    match p {
        MqttPacket::Connect(x) => {
            let l = x.protocol_version;
            if !(3..=5).contains(&l) {
                c.refuse("unknown CONNECT level");
            }
            c.may_if((x.protocol_id == Protocol::MQIsdp) != (l == 3));
            c.st(&x.client_id);
            if x.client_id.is_empty() && (l == 3 || (l == 4 && !x.clean_session)) {
                c.refuse("client id required");
            }
            if let (5, Some(q)) = (l, &x.properties) {
                c.may_if(q.receive_maximum == 0 || q.maximum_packet_size == Some(0));
                c.may_if(q.authentication_data.is_some() && q.authentication_method.is_none());
                c.ost(&q.authentication_method);
                c.ost(&q.authentication_data);
                c.ups(&q.user_properties);
            }
            if let Some(w) = &x.will {
                match &w.topic {
                    None => c.refuse("will without topic"),
                    Some(t) if t.is_empty() => c.refuse("will without topic"),
                    Some(t) => c.topic(t),
                }
                if let Some(t) = &w.payload {
                    c.st(t);
                }
                if w.qos > 2 {
                    c.refuse("will QoS above 2");
                }
                if let (5, Some(q)) = (l, &w.properties) {
                    c.ost(&q.content_type);
                    if let Some(t) = &q.response_topic {
                        c.topic(t);
                    }
                    c.bin(&q.correlation_data);
                    c.ups(&q.user_properties);
                }
            }
            if let Some(t) = &x.user_name {
                c.st(t)
            }
            if let Some(t) = &x.password {
                c.st(t);
                if x.user_name.is_none() && l < 5 {
                    c.refuse("password without user name");
                }
            }
        }
        MqttPacket::Connack(x) => {
            let code = if v5 { x.reason_code } else { x.return_code };
            match code {
                None => c.refuse("missing return code"),
                Some(b) => {
                    c.may_if(if v5 { !connack_codes().contains(&b) } else { b > 5 });
                    c.may_if(x.session_present && b != 0);
                }
            }
            if let (true, Some(q)) = (v5, &x.properties) {
                c.may_if(q.receive_maximum == 0 || q.maximum_packet_size == Some(0) || q.maximum_qos > 2);
                c.may_if(q.authentication_data.is_some() && q.authentication_method.is_none());
                for o in [
                    &q.assigned_client_identifier,
                    &q.authentication_method,
                    &q.authentication_data,
                    &q.response_information,
                    &q.server_reference,
                    &q.reason_string,
                ] {
                    c.ost(o);
                }
                c.ups(&q.user_properties);
            }
        }
        MqttPacket::Publish(x) => {
            c.topic(&x.topic);
            if x.qos > 2 {
                c.refuse("QoS above 2");
            }
            let alias = x.properties.as_ref().map(|q| q.topic_alias.is_some()).unwrap_or(false);
            if x.topic.is_empty() && !(v5 && alias) {
                c.refuse("missing topic");
            }
            if x.qos > 0 {
                match x.message_id {
                    None => c.refuse("missing message id"),
                    Some(i) => c.id(i),
                }
            } else {
                c.may_if(x.dup);
            }
            c.size += x.payload.len();
            if let (true, Some(q)) = (v5, &x.properties) {
                c.ost(&q.content_type);
                if let Some(t) = &q.response_topic {
                    c.topic(t);
                }
                c.bin(&q.correlation_data);
                c.ups(&q.user_properties);
                c.may_if(q.topic_alias == Some(0));
                for i in &q.subscription_identifiers {
                    c.may_if(*i == 0);
                    if *i > MAXVAR {
                        c.refuse("subscription identifier above 268435455");
                    }
                }
            }
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            c.id(x.message_id);
            if v5 {
                let first = matches!(p, MqttPacket::Puback(_) | MqttPacket::Pubrec(_));
                match (first, &x.puback_reason_code, &x.pubcomp_reason_code) {
                    (true, Some(_), None) | (false, None, Some(_)) => {}
                    _ => c.refuse("both, neither or the wrong reason code"),
                }
            }
            c.ackp(v5, &x.properties);
        }
        MqttPacket::Subscribe(x) => {
            c.id(x.message_id);
            if x.subscriptions.is_empty() {
                c.refuse("no subscriptions");
            }
            for s in &x.subscriptions {
                if s.topic.is_empty() {
                    c.refuse("empty topic filter");
                }
                c.st(&s.topic);
                if v5 {
                    match s.rh {
                        None => c.refuse("retain handling missing"),
                        Some(r) if r > 2 => c.refuse("retain handling above 2"),
                        _ => {}
                    }
                }
            }
            if let (true, Some(q)) = (v5, &x.properties) {
                if q.subscription_identifier > MAXVAR {
                    c.refuse("subscription identifier above 268435455");
                }
                c.ups(&q.user_properties);
            }
        }
        MqttPacket::Suback(x) => {
            c.id(x.message_id);
            if if v5 { x.granted_reason_codes.is_empty() } else { x.granted.is_empty() } {
                c.refuse("no granted codes");
            }
            c.ackp(v5, &x.properties);
        }
        MqttPacket::Unsubscribe(x) => {
            c.id(x.message_id);
            if x.unsubscriptions.is_empty() {
                c.refuse("no unsubscriptions");
            }
            for t in &x.unsubscriptions {
                c.may_if(t.is_empty());
                c.st(t);
            }
            if let (true, Some(q)) = (v5, &x.properties) {
                c.ups(&q.user_properties);
            }
        }
        MqttPacket::Unsuback(x) => {
            c.id(x.message_id);
            c.may_if(v5 && x.granted.is_empty());
            c.ackp(v5, &x.properties);
        }
        MqttPacket::Disconnect(x) => {
            if let (true, Some(q)) = (v5, &x.properties) {
                c.ost(&q.server_reference);
                c.ost(&q.reason_string);
                c.ups(&q.user_properties);
            }
        }
        MqttPacket::Auth(x) => {
            if !v5 {
                c.refuse("AUTH before version 5");
            }
            if let Some(q) = &x.properties {
                c.may_if(q.authentication_method.is_empty());
                c.st(&q.authentication_method);
                c.ost(&q.authentication_data);
                c.ost(&q.reason_string);
                c.ups(&q.user_properties);
            }
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    // c.size is the part that can be large; the rest of a packet is far below this margin
    if c.size > MAXVAR as usize {
        c.refuse("packet above 268435455 bytes");
    } else if c.size + 4096 > MAXVAR as usize {
        c.may = true;
    }
    match (c.refuse, c.may) {
        (Some(w), _) => Class::Refuse(w),
        (None, true) => Class::May,
        _ => Class::Must,
    }
}
