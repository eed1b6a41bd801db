pub mod decode;
pub mod encode;
pub mod reader;
pub mod serde;
pub mod session;
pub mod stream;

use crate::explore::Run;
use crate::report::Level;

pub const IDS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];

pub fn runs(id: &str, quick: bool) -> Option<Vec<Run>> {
    Some(match id {
        "C01" => encode::c01(quick),
        "C02" => encode::c02(quick),
        "C03" => encode::c03(quick),
        "C04" => decode::c04(quick),
        "C05" => decode::c05(quick),
        "C06" => stream::c06(quick),
        "C07" => stream::c07(quick),
        "C08" => stream::c08(quick),
        "C09" => stream::c09(quick),
        "C10" => stream::c10(quick),
        "C11" => reader::c11(quick),
        "C12" => reader::c12(quick),
        "C13" => decode::c13(quick),
        "C14" => decode::c14(quick),
        "C15" => encode::c15(quick),
        "C16" => decode::c16(quick),
        "C17" => encode::c17(quick),
        "C18" => serde::c18(quick),
        "C19" => stream::c19(quick),
        "C20" => encode::c20(quick),
        "C21" => stream::c21(quick),
        "C22" => session::c22(quick),
        "C23" => session::c23(quick),
        _ => return None,
    })
}

pub fn level(id: &str) -> Level {
    match id {
        "C07" | "C08" | "C09" => Level {
            name: "fault_enumeration",
            rule: "every case is one byte stream and one complete script of the byte source (where each read ends, is \
                   interrupted or fails, where the stream is cut), enumerated without repetition; a case is \
                   distinct when the sequence of results observed differs",
            assumptions: &[
                "the byte source is the only environment of the decoder; it honours the contract of std::io::Read",
                "bounds: catalogue streams, script shapes and deviation bounds as listed per run",
            ],
        },
        _ => Level {
            name: "model_checking",
            rule: "",
            assumptions: &[
                "the reference model (src/spec.rs) states the MQTT 3.1, 3.1.1 and 5 formats correctly; it was written \
                 from the specifications, not from the code",
                "bounds: the choice menus and deviation bounds as listed per run",
                "user properties with different names live in a hash map: their relative order is no observable",
            ],
        },
    }
}

pub fn digest() -> Vec<String> {
    serde::digest()
}
