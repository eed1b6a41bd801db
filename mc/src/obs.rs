//! The environment (scripted byte sources) and the observations made on the code under test.
use crate::explore::imp;
use crate::spec::Verdict;
use crate::trace::mix;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::*;
use std::io::{self, BufReader, ErrorKind, Read};

/// A byte source under the explorer's control.
pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// absolute offsets (ascending) at which a read must stop
    pub cuts: &'a [usize],
    /// no read delivers more
    pub chunk: usize,
    /// every read delivers one byte
    pub single: bool,
    /// absolute offsets (ascending, repeats allowed) at which the next read is interrupted once
    pub intr: &'a [usize],
    pub intr_done: usize,
    /// every read is interrupted once before it succeeds
    pub intr_all: bool,
    pub flip: bool,
    /// offset, kind, forever
    pub fail: Option<(usize, ErrorKind, bool)>,
    pub failed: bool,
    /// failures that pass: absolute offsets (ascending, repeats allowed) and kinds
    pub fails: &'a [(usize, ErrorKind)],
    pub fails_done: usize,
    pub reads: u64,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Src<'a> {
        Src {
            data,
            pos: 0,
            cuts: &[],
            chunk: usize::MAX,
            single: false,
            intr: &[],
            intr_done: 0,
            intr_all: false,
            flip: false,
            fail: None,
            failed: false,
            fails: &[],
            fails_done: 0,
            reads: 0,
        }
    }
}

impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.intr_all {
            self.flip = !self.flip;
            if self.flip {
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        if self.intr_done < self.intr.len() && self.intr[self.intr_done] == self.pos {
            self.intr_done += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len().min(self.pos + buf.len());
        if let Some((at, kind, forever)) = self.fail {
            if self.pos == at && (forever || !self.failed) {
                self.failed = true;
                return Err(io::Error::from(kind));
            }
            if at > self.pos {
                end = end.min(at);
            }
        }
        end = end.min(self.pos.saturating_add(self.chunk));
        if let Some((at, kind)) = self.fails.get(self.fails_done) {
            if *at <= self.pos {
                self.fails_done += 1;
                return Err(io::Error::from(*kind));
            }
            end = end.min(*at);
        }
        if self.single {
            end = end.min(self.pos + 1);
        }
        if let Some(c) = self.cuts.iter().find(|c| **c > self.pos) {
            end = end.min(*c);
        }
        let n = end - self.pos;
        buf[..n].copy_from_slice(&self.data[self.pos..end]);
        self.pos = end;
        Ok(n)
    }
}

pub type Got = Res<MqttPacket>;

pub fn decoder<R: Read>(cap: usize, src: R) -> PacketDecoder<R> {
    imp(|| PacketDecoder::from_bufreader(BufReader::with_capacity(cap, src)))
}

/// one decode on a fresh decoder over exactly these bytes
pub fn first(bytes: &[u8], version: u8) -> Got {
    imp(|| {
        PacketDecoder::from_bufreader(BufReader::with_capacity(bytes.len().clamp(1, 8192), bytes))
            .decode_packet(version)
    })
}

pub struct Driven {
    pub results: Vec<Got>,
    /// has_more() said no (as opposed to: the call limit was reached)
    pub ended: bool,
}

/// the documented loop
pub fn drive<R: Read>(dec: &mut PacketDecoder<R>, version: impl Fn(usize) -> u8, max: usize) -> Driven {
    let mut results = vec![];
    loop {
        if !imp(|| dec.has_more()) {
            return Driven { results, ended: true };
        }
        if results.len() == max {
            return Driven { results, ended: false };
        }
        let v = version(results.len());
        results.push(imp(|| dec.decode_packet(v)));
    }
}

pub fn reader(bytes: &[u8]) -> ByteReader<&[u8]> {
    ByteReader::new(BufReader::with_capacity(bytes.len().clamp(1, 8192), bytes))
}

#[derive(PartialEq, Clone, Copy)]
pub enum Part {
    Accepting, // C04
    Rejecting, // C05
    Both,
}

pub enum Judged {
    Silent,
    Ok,
    Known(&'static str),
    Bad(String),
}

pub fn judge(part: Part, v: &Verdict, got: &Got) -> Judged {
    match (v, got) {
        (Verdict::Accept(_) | Verdict::May(..) | Verdict::Known(_), _) if part == Part::Rejecting => Judged::Silent,
        (Verdict::Reject(_), _) if part == Part::Accepting => Judged::Silent,
        (Verdict::Accept(p), Ok(q)) if p == q => Judged::Ok,
        (Verdict::Accept(p), Ok(q)) => {
            Judged::Bad(format!("well-formed packet decoded to\n  {}\nbut the bytes say\n  {}", short(q), short(p)))
        }
        (Verdict::Accept(p), Err(e)) => {
            Judged::Bad(format!("well-formed packet rejected ({e}); the bytes say\n  {}", short(p)))
        }
        (Verdict::May(p, _), Ok(q)) if p != q => {
            Judged::Bad(format!("packet decoded to\n  {}\nbut the bytes say\n  {}", short(q), short(p)))
        }
        (Verdict::May(..), _) => Judged::Ok,
        (Verdict::Any(_), _) => Judged::Silent,
        (Verdict::Reject(_), Err(_)) => Judged::Ok,
        (Verdict::Reject(r), Ok(q)) => Judged::Bad(format!("malformed packet ({r}) decoded to\n  {}", short(q))),
        (Verdict::Known(k), Err(_)) => Judged::Known(k),
        (Verdict::Known(_), Ok(_)) => Judged::Silent,
    }
}

/// debug form, cut in the middle when long, and cut off when huge
pub fn short<T: std::fmt::Debug>(p: &T) -> String {
    struct Lim(String);
    impl std::fmt::Write for Lim {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.len() > 2_000_000 {
                return Err(std::fmt::Error);
            }
            Ok(())
        }
    }
    let mut l = Lim(String::new());
    let whole = std::fmt::write(&mut l, format_args!("{p:?}")).is_ok();
    let s = l.0;
    if s.len() <= 1600 {
        return s;
    }
    let cut = |mut i: usize| {
        while !s.is_char_boundary(i) {
            i -= 1
        }
        i
    };
    if !whole {
        return format!("{} ... [more than 2000000 bytes]", &s[..cut(1000)]);
    }
    format!("{} ... [{} bytes] ... {}", &s[..cut(1000)], s.len(), &s[cut(s.len() - 400)..])
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 700 {
        hex(b)
    } else {
        format!("{} ... [{} bytes] ... {}", hex(&b[..200]), b.len(), hex(&b[b.len() - 100..]))
    }
}

/// hash of what was observed (accepted value or error), independent of hash map order
pub fn got_hash(g: &Got) -> u64 {
    match g {
        Err(_) => 1,
        Ok(p) => packet_hash(p),
    }
}

/// what the bytes give in a process that has decoded nothing else, as got_hash(); None if that cannot be found
/// out, or has been asked often enough
pub fn pristine(b: &[u8], version: u8) -> Option<u64> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    static ASKED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if ASKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 300 {
        return None;
    }
    let mut c = Command::new(std::env::current_exe().ok()?)
        .args(["pristine", &version.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(b).ok()?;
    String::from_utf8(c.wait_with_output().ok()?.stdout).ok()?.trim().parse().ok()
}

pub fn packet_hash(p: &MqttPacket) -> u64 {
    // characters of the debug form are summed by position-free hashing of its sorted pieces
    let s = format!("{p:?}");
    let mut h = 0u64;
    for piece in s.split(", ").flat_map(|p| p.split('{')) {
        let t = piece.trim_matches(|c| "{}[]() ".contains(c));
        let mut k = t.len() as u64;
        for c in t.bytes() {
            k = mix(k ^ c as u64);
        }
        h = h.wrapping_add(k);
    }
    mix(h)
}

/// the codec entry of the packet's own type (as opposed to the packet enum)
pub fn encode_by_type(p: &MqttPacket, version: u8) -> Res<Vec<u8>> {
    match p {
        MqttPacket::Connect(x) => x.encode(version),
        MqttPacket::Connack(x) => x.encode(version),
        MqttPacket::Subscribe(x) => x.encode(version),
        MqttPacket::Suback(x) => x.encode(version),
        MqttPacket::Publish(x) => x.encode(version),
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            x.encode(version)
        }
        MqttPacket::Unsubscribe(x) => x.encode(version),
        MqttPacket::Unsuback(x) => x.encode(version),
        MqttPacket::Pingreq => PingreqPacket {}.encode(version),
        MqttPacket::Pingresp => PingrespPacket {}.encode(version),
        MqttPacket::Disconnect(x) => x.encode(version),
        MqttPacket::Auth(x) => x.encode(version),
    }
}
