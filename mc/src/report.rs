//! Known findings, replay files, evidence.
use crate::explore::{self, Report, Run, Violation, DESCRIPTION};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::OnceLock;

pub fn root() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

pub struct Session {
    pub id: String,
    pub tier: String,
    pub known: Vec<(String, String)>,
}
pub static SESSION: OnceLock<Session> = OnceLock::new();

/// lines `known: property=C04 key=<key> | <what>` of known_findings.txt
pub fn load_known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((p, r)) = r.split_once(" key=") {
                if let Some((k, w)) = r.split_once(" | ") {
                    if p == id {
                        v.push((k.to_string(), w.to_string()))
                    }
                }
            }
        }
    }
    v
}

pub fn is_known(key: &str) -> bool {
    SESSION.get().map(|s| s.known.iter().any(|(k, _)| k == key)).unwrap_or(false)
}

fn replay_path(id: &str, run: &str) -> PathBuf {
    let d = root().join("out");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{id}-{run}.replay"))
}

pub fn write_replay(v: &Violation) -> PathBuf {
    let s = SESSION.get().unwrap();
    let mut t = String::new();
    let _ = writeln!(t, "property: {}", s.id);
    let _ = writeln!(t, "tier: {}", s.tier);
    let _ = writeln!(t, "run: {}", v.run);
    let _ = writeln!(t, "budget: {}", v.budget);
    let c: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
    let _ = writeln!(t, "choices: {}", c.join(" "));
    let _ = writeln!(t, "replay with: /verif/check.sh replay <this file>");
    let _ = writeln!(t, "\n{}\n", v.fail.what);
    let d = DESCRIPTION.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let _ = writeln!(t, "{d}");
    let p = replay_path(&s.id, v.run);
    let _ = std::fs::write(&p, t);
    p
}

/// called by the watchdog: the stuck worker can neither be stopped nor joined
pub fn hang(run: &Run, v: Violation) -> ! {
    let s = SESSION.get().unwrap();
    // describe the case on a thread of its own (it will get stuck as well)
    std::thread::scope(|sc| {
        let choices = v.choices.clone();
        let budget = v.budget;
        sc.spawn(move || {
            let mut cx = explore::Cx { verbose: true, ..Default::default() };
            let mut ch = explore::Ch::new(&choices, budget);
            let _ = explore::one(run, budget, &mut ch, &mut cx);
        });
        std::thread::sleep(std::time::Duration::from_millis(500));
        let p = write_replay(&v);
        println!("{}", v.fail.what);
        println!("VIOLATION property={} replay={}", s.id, p.canonicalize().unwrap_or(p.clone()).display());
        std::process::exit(1);
    })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Level {
    pub name: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn evidence(level: &Level, runs: &[(String, String, u32, Report)], wall: f64, violations: usize) {
    let s = SESSION.get().unwrap();
    let mut states = crate::trace::Set::default();
    let mut edges = crate::trace::Set::default();
    let mut outcomes = crate::trace::Set::default();
    let mut execs = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut list = vec![];
    let mut capped = false;
    for (name, what, budget, r) in runs {
        states.extend(r.model.states.iter());
        edges.extend(r.model.edges.iter());
        outcomes.extend(r.cx.outcomes.iter());
        execs += r.executions;
        capped |= r.capped;
        for x in r.cx.samples.iter().take(2) {
            if samples.len() < 12 {
                let mut t = format!("{name}: {x}");
                if t.chars().count() > 600 {
                    t = t.chars().take(600).collect();
                    t.push_str(" ...");
                }
                samples.push(t);
            }
        }
        let counts: Vec<String> = r.cx.counts.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        list.push(format!(
            "{{\"run\": {}, \"explores\": {}, \"deviation_bound\": {budget}, \"executions\": {}, \"choice_points\": {}, \"longest_execution\": {}, \"distinct_outcomes\": {}, \"model_states\": {}, \"completed\": {}, \"counts\": {{{}}}, \"wall_s\": {:.2}}}",
            js(name), js(what), r.executions, r.points, r.longest, r.cx.outcomes.len(), r.model.states.len(),
            !r.capped, counts.join(", "), r.wall
        ));
    }
    let samples: Vec<String> = samples.iter().map(|x| js(x)).collect();
    let mut cov = String::new();
    if level.name == "model_checking" {
        let _ = write!(
            cov,
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {execs}, \"distinct_observed_outcomes\": {}",
            states.len(),
            edges.len(),
            outcomes.len()
        );
    } else {
        let _ = write!(
            cov,
            "\"evaluations\": {execs}, \"distinct_nontrivial\": {}, \"rule\": {}, \"model_states\": {}",
            outcomes.len(),
            js(level.rule),
            states.len()
        );
    }
    let assumptions: Vec<String> = level.assumptions.iter().map(|a| js(a)).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{{cov}, \"exhaustive\": {}, \"samples\": [{}],\n  \"runs\": [\n   {}\n  ]}},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        js(&s.id), js(&s.tier), js(level.name), !capped, samples.join(", "), list.join(",\n   "), assumptions.join(", ")
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}.json", s.id));
    if let Err(e) = std::fs::write(&f, t) {
        eprintln!("cannot write {}: {e}", f.display());
        std::process::exit(2);
    }
}
