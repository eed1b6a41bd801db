mod alloc;
mod checks;
mod explore;
mod gen;
mod obs;
mod report;
mod spec;
mod src;
mod trace;
mod wire;

use explore::*;
use report::*;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick"))),
        Some("replay") => std::process::exit(replay(&args[2])),
        #[allow(clippy::single_match)]
        Some("digest") => {
            install_hook();
            for l in checks::digest() {
                println!("{l}");
            }
        }
        // one decode in a process that has done nothing else: version, then the bytes on the standard input
        Some("pristine") => {
            install_hook();
            let mut b = vec![];
            let _ = std::io::Read::read_to_end(&mut std::io::stdin(), &mut b);
            println!("{}", obs::got_hash(&obs::first(&b, args[2].parse().unwrap_or(4))));
        }
        Some("literals") => println!("{:?}\n{:?}", src::get().ints, src::texts()),
        Some("list") => {
            for id in checks::IDS {
                println!("{id}");
            }
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | digest | list");
            std::process::exit(2);
        }
    }
}

fn session(id: &str, tier: &str) {
    let _ = SESSION.set(Session { id: id.into(), tier: tier.into(), known: load_known(id) });
    install_hook();
}

fn opts(secs: u64) -> Opts {
    Opts {
        workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        deadline: Instant::now() + Duration::from_secs(secs),
        hang_after: Duration::from_secs(40),
        is_known,
    }
}

fn again(run: &Run, budget: u32, choices: &[u32]) -> One {
    explore::DESCRIPTION.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let mut cx = Cx { verbose: true, ..Default::default() };
    let mut ch = Ch::new(choices, budget);
    one(run, budget, &mut ch, &mut cx)
}

fn check(id: &str, tier: &str) -> i32 {
    session(id, tier);
    catch_crashes(None);
    let quick = tier != "thorough";
    let runs = match checks::runs(id, quick) {
        Some(r) => r,
        None => {
            eprintln!("no such check: {id}");
            return 2;
        }
    };
    let level = checks::level(id);
    let t0 = Instant::now();
    // far below the 900 s a check gets
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 560 } else { 780 });
    let all = opts(cap);
    let mut done: Vec<(String, String, u32, Report)> = vec![];
    let mut known: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    for (i, run) in runs.iter().enumerate() {
        // a run that does not complete leaves half of the time that remains to those after it
        let now = Instant::now();
        let left = all.deadline.saturating_duration_since(now);
        let o = Opts { deadline: now + if i + 1 < runs.len() { left / 2 } else { left }, ..all };
        let mut r = explore(run, run.budget, &o);
        if let Some(b) = &r.broken {
            eprintln!("ERROR: {b}");
            return 2;
        }
        if let Some(mut v) = r.violation.take() {
            // look for an example with fewer deviations
            let small = Opts { deadline: Instant::now() + Duration::from_secs(30), ..o };
            for b in 0..run.budget {
                let mut s = explore(run, b, &small);
                if let Some(w) = s.violation.take() {
                    v = w;
                    break;
                }
            }
            let mut seen = 0;
            for _ in 0..2 {
                match again(run, v.budget, &v.choices) {
                    One::Fail(f) => {
                        seen += 1;
                        v.fail = f
                    }
                    One::Ok => {}
                    One::Broken(m) => {
                        eprintln!("ERROR: {m}");
                        return 2;
                    }
                }
            }
            let p = write_replay(&v);
            if seen < 2 {
                // The only nondeterminism the harness does not own is the iteration order of the user
                // property maps: repeat until the failure shows again.
                let back = (0..2000).any(|_| matches!(again(run, v.budget, &v.choices), One::Fail(_)));
                if back {
                    println!("(shows on some replays only: it depends on hash map iteration order)");
                } else {
                    // it was observed on the real code, so it counts: state that outlives a decoder, a
                    // packet or a call decides it. The replay explores the whole run again.
                    println!("(did not show when this execution was repeated alone: it depends on what the process did before)");
                    note_history(&p);
                }
            }
            println!("{}: {}", run.name, v.fail.what);
            done.push((run.name.to_string(), run.what.clone(), run.budget, r));
            evidence(&level, &done, t0.elapsed().as_secs_f64(), 1);
            println!("VIOLATION property={id} replay={}", p.canonicalize().unwrap_or(p.clone()).display());
            return 1;
        }
        for (k, (n, d)) in &r.cx.known {
            let e = known.entry(k.clone()).or_insert((0, d.clone()));
            e.0 += n;
        }
        println!(
            "{id} {}: {} executions, {} outcomes, {} model states{} [{:.1} s]",
            run.name,
            r.executions,
            r.cx.outcomes.len(),
            r.model.states.len(),
            if r.capped { ", CAPPED by time" } else { "" },
            r.wall
        );
        done.push((run.name.to_string(), run.what.clone(), run.budget, r));
    }
    for (k, w) in &SESSION.get().unwrap().known {
        if let Some((n, d)) = known.get(k) {
            println!("KNOWN-FINDING: property={id} {w} [{k}; {n} cases, e.g. {}]", d.replace('\n', " "));
        } else if quick || !done.iter().any(|d| d.3.capped) {
            println!("note: known finding did not show: {k}");
        }
    }
    evidence(&level, &done, t0.elapsed().as_secs_f64(), 0);
    0
}

fn note_history(p: &std::path::Path) {
    if let Ok(t) = std::fs::read_to_string(p) {
        let _ = std::fs::write(p, format!("{t}\nhistory: explore the whole run\n"));
    }
}

fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    let id = get("property:");
    let tier = get("tier:");
    session(&id, &tier);
    let runs = checks::runs(&id, tier != "thorough").unwrap_or_default();
    let name = get("run:");
    let Some(run) = runs.iter().find(|r| r.name == name) else {
        eprintln!("no such run: {id} {name}");
        return 2;
    };
    let choices: Vec<u32> = get("choices:").split_whitespace().filter_map(|s| s.parse().ok()).collect();
    let _history = !get("history:").is_empty();
    let r = if get("history:").is_empty() {
        catch_crashes(Some(format!(
            "the process was aborted inside the code under test\nVIOLATION property={id} replay={file}\n"
        )));
        again(run, get("budget:").parse().unwrap_or(0), &choices)
    } else {
        catch_crashes(None);
        let r = explore(run, run.budget, &opts(780));
        match (r.violation, r.broken) {
            (Some(v), _) => One::Fail(v.fail),
            (_, Some(b)) => One::Broken(b),
            _ => One::Ok,
        }
    };
    println!("{}", DESCRIPTION.lock().unwrap_or_else(|e| e.into_inner()));
    match r {
        One::Ok => {
            println!("holds");
            0
        }
        One::Fail(f) => {
            println!("{}", f.what);
            println!("VIOLATION property={id} replay={file}");
            1
        }
        One::Broken(m) => {
            eprintln!("ERROR: {m}");
            2
        }
    }
}
