//! Serialization: C18. Built only with the feature on; the digest is built both ways.
use crate::explore::*;
use crate::gen::{self, Mode};
use crate::obs::*;
use crate::trace::mix;
use crate::wire::{self, Frame};
#[cfg(feature = "serde")]
use mqtt_packet_3_5::*;

/// One line per group of decodes and encodes: sums of hashes of everything observed. Must be the same
/// with the feature on and off.
pub fn digest() -> Vec<String> {
    let cat: Vec<Frame> = {
        let mut x = wire::catalogue();
        x.extend(super::stream::crooked());
        x
    };
    let mut out = spread(cat.len(), |i| {
        let f = &cat[i];
        let mut sum = 0u64;
        for pos in 0..f.bytes.len() {
            for x in 0..=255u8 {
                let mut b = f.bytes.clone();
                b[pos] = x;
                let g = first(&b, f.version);
                sum = sum.wrapping_add(mix(got_hash(&g) ^ (pos as u64) << 8 ^ x as u64));
                if x == f.bytes[pos] || x % 16 == 1 {
                    if let Ok(p) = g {
                        for v in [3u8, 4, 5] {
                            let mut e = p.clone().encode(v).unwrap_or_else(|e| e.into_bytes());
                            e.sort();
                            sum = e.iter().fold(sum, |a, b| mix(a ^ *b as u64));
                        }
                    }
                }
            }
        }
        format!("frame {i} {} {sum:016x}", f.version)
    });
    let all = wire::all(1, |ch| gen::packet(ch, Mode::Dev { wide: false }));
    out.extend(spread(all.len().div_ceil(50), |i| {
        let mut l = format!("packets from {}", i * 50);
        for (n, (p, v)) in all.iter().enumerate().skip(i * 50).take(50) {
            let mut e = p.clone().encode(*v).unwrap_or_else(|e| e.into_bytes());
            e.sort();
            let h = e.iter().fold(n as u64, |a, b| mix(a ^ *b as u64));
            l.push_str(&format!(" {h:04x}"));
        }
        l
    }));
    out
}

/// f(0), ..., f(n-1), by all processors
fn spread(n: usize, f: impl Fn(usize) -> String + Sync) -> Vec<String> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![String::new(); n]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let l = f(i);
                out.lock().unwrap()[i] = l;
            });
        }
    });
    out.into_inner().unwrap()
}

#[cfg(not(feature = "serde"))]
pub fn c18(_quick: bool) -> Vec<Run> {
    vec![Run::new("unavailable", "built without the feature", 0, |_, _| {
        panic!("C18 needs the binary built with the serde feature")
    })]
}

#[cfg(feature = "serde")]
pub fn c18(quick: bool) -> Vec<Run> {
    fn f(p: &MqttPacket, quick: bool, cx: &mut Cx) -> Out {
        crate::trace::model_start(super::encode::kind_of(p));
        let h = packet_hash(p);
        crate::trace::push(h);
        let text = imp(|| serde_json::to_string(p));
        let text = match text {
            Ok(t) => t,
            Err(e) => return Err(Fail::new(format!("cannot be serialized ({e}): {}", short(p)))),
        };
        match imp(|| serde_json::from_str::<MqttPacket>(&text)) {
            Ok(q) if q == *p && packet_hash(&q) == h => {}
            x => {
                return Err(Fail::new(format!("text\n  {}\ngives\n  {}\nnot\n  {}", short(&text), short(&x), short(p))))
            }
        }
        // the longest values go through the two basic ways only
        let long = quick && text.len() > 4096;
        if !long {
            match imp(|| serde_json::from_slice::<MqttPacket>(text.as_bytes())) {
                Ok(q) if q == *p => {}
                x => {
                    return Err(Fail::new(format!(
                        "text (as bytes)\n  {}\ngives\n  {}\nnot\n  {}",
                        short(&text),
                        short(&x),
                        short(p)
                    )))
                }
            }
        }
        let tree = imp(|| serde_json::to_value(p));
        let tree = match tree {
            Ok(t) => t,
            Err(e) => return Err(Fail::new(format!("cannot be serialized to a tree ({e}): {}", short(p)))),
        };
        match imp(|| serde_json::from_value::<MqttPacket>(tree.clone())) {
            Ok(q) if q == *p => {}
            x => {
                return Err(Fail::new(format!("tree\n  {}\ngives\n  {}\nnot\n  {}", short(&tree), short(&x), short(p))))
            }
        }
        if long {
            cx.outcome(h);
            cx.count("restored in two ways");
            return Ok(());
        }
        // the pretty form goes through another deserializer path (reader, owned strings)
        let pretty = imp(|| serde_json::to_vec_pretty(p)).unwrap_or_default();
        match imp(|| serde_json::from_reader::<_, MqttPacket>(&pretty[..])) {
            Ok(q) if q == *p => {}
            x => return Err(Fail::new(format!("text (streamed) gives\n  {}\nnot\n  {}", short(&x), short(p)))),
        }
        // positions alone tell which field is which
        let binary = match imp(|| bincode::serialize(p)) {
            Ok(b) => b,
            Err(e) => return Err(Fail::new(format!("cannot be serialized to a binary form ({e}): {}", short(p)))),
        };
        match imp(|| bincode::deserialize::<MqttPacket>(&binary)) {
            Ok(q) if q == *p && packet_hash(&q) == h => {}
            x => {
                return Err(Fail::new(format!(
                    "binary form {} gives\n  {}\nnot\n  {}",
                    hex(&binary),
                    short(&x),
                    short(p)
                )))
            }
        }
        cx.outcome(h);
        cx.count("restored in five ways");
        cx.sample(|| text.chars().take(200).collect());
        Ok(())
    }
    fn whole<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &T) -> Out {
        let t = imp(|| serde_json::to_string(x)).map_err(|e| Fail::new(format!("{x:?}: {e}")))?;
        match imp(|| serde_json::from_str::<T>(&t)) {
            Ok(y) if y == *x => {}
            y => return Err(Fail::new(format!("{t} gives {y:?} not {x:?}"))),
        }
        let t = imp(|| serde_json::to_value(x)).map_err(|e| Fail::new(format!("{x:?}: {e}")))?;
        match imp(|| serde_json::from_value::<T>(t.clone())) {
            Ok(y) if y == *x => {}
            y => return Err(Fail::new(format!("{t} gives {y:?} not {x:?}"))),
        }
        let t = imp(|| bincode::serialize(x)).map_err(|e| Fail::new(format!("{x:?}: {e}")))?;
        match imp(|| bincode::deserialize::<T>(&t)) {
            Ok(y) if y == *x => Ok(()),
            y => Err(Fail::new(format!("{t:?} gives {y:?} not {x:?}"))),
        }
    }
    gen::COARSE.store(quick, std::sync::atomic::Ordering::Relaxed);
    vec![
        Run::new("same-codec", "decoding of every one-byte mutant of every catalogue and crooked packet and encoding of single-field deviations, feature on against feature off", 0, |_, cx| {
            let file = std::env::var("MC_PLAIN_DIGEST").map_err(|_| Fail::new("no digest of the plain build")).unwrap();
            let plain = std::fs::read_to_string(&file).expect("digest of the plain build");
            let own = digest();
            let mut n = 0;
            for (a, b) in plain.lines().zip(own.iter()) {
                n += 1;
                if a != b {
                    return Err(Fail::new(format!("the codec differs with the feature on:\n  off {a}\n  on  {b}")));
                }
            }
            if plain.lines().count() != own.len() {
                return Err(Fail::new("the digests have different lengths"));
            }
            cx.add("digest lines equal", n);
            cx.outcome(mix(n));
            Ok(())
        }),
        Run::new("packets", "every packet value within the deviation bound", if quick { 2 } else { 3 }, move |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Dev { wide: false });
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            f(&p, quick, cx)
        }),
        Run::new("wide", format!("single fields over their whole menus ({} 16-bit ids, all string lengths to 330 and around 65535, all characters at the UTF-8 class boundaries)", if quick { "256" } else { "all" }), 1, move |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Dev { wide: true });
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            f(&p, quick, cx)
        }),
        Run::new("presence", "full product of all optional parts, flags, QoS and codes", 0, move |ch, cx| {
            let (p, v) = gen::packet(ch, Mode::Free);
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            f(&p, quick, cx)
        }),
        Run::new("huge", super::decode::HUGE, 0, move |ch, cx| {
            let Some((p, v)) = super::decode::huge_packet(ch, quick) else { return Ok(()) };
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            f(&p, true, cx)
        }),
        Run::new("source-values", "every field of every packet value with every number, text and length that the source of the crate names (one less, one more)", if quick { 0 } else { 1 }, move |ch, cx| {
            let Some((p, v)) = gen::source_packet(ch, false) else { return Ok(()) };
            cx.describe(|| format!("version {v} packet {}", short(&p)));
            f(&p, quick, cx)
        }),
        Run::new("decoded", "every packet decoded from the frames of the deviating writer", if quick { 1 } else { 2 }, move |ch, cx| {
            let fr = wire::frame(ch, false, false);
            match first(&fr.bytes, fr.version) {
                Ok(p) => f(&p, quick, cx),
                Err(_) => Ok(()),
            }
        }),
        Run::new("codes", "every value of every enumerated type, headers and packet types on their own", 0, |ch, cx| {
            let b = ch.pick(256) as u8;
            cx.outcome(b as u64);
            if let Ok(x) = PubackPubrecCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = PubcompPubrelCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = SubscriptionReasonCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = UnsubackCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = DisconnectCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = AuthCode::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = QoS::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = Granted::from_byte(b) {
                whole(&x)?
            }
            if let Ok(x) = FixedHeader::from_byte(b) {
                whole(&x)?
            }
            whole(&PacketType::from_bits(b & 15))?;
            whole(&Protocol::Mqtt)?;
            whole(&Protocol::MQIsdp)?;
            whole(&PingreqPacket {})?;
            whole(&PingrespPacket {})?;
            Ok(())
        }),
    ]
}
