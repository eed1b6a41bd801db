//! The numbers and texts that occur in the source of the crate, as further values of the menus. A condition on
//! a particular value or size can only be written down with such a literal, so the runs that try them all reach
//! both sides of every such condition, whatever the menus of edge values hold. What is right about the result is
//! decided by the reference model, as everywhere; the literals only widen what is explored.
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Literals {
    /// every number, sums, products and shifts of neighbouring ones, and one less and one more of each
    pub ints: Vec<u32>,
    /// every text that is no message, alone, within others, in other case
    pub texts: Vec<String>,
}

pub fn get() -> &'static Literals {
    static L: OnceLock<Literals> = OnceLock::new();
    L.get_or_init(|| {
        let root = std::env::var("MC_REPO").unwrap_or("/repo".into());
        let mut files = vec![];
        walk(std::path::Path::new(&root).join("src").as_path(), &mut files);
        files.sort();
        let (mut ints, mut texts) = (BTreeSet::new(), BTreeSet::new());
        for f in files {
            if let Ok(s) = std::fs::read(&f) {
                scan(&String::from_utf8_lossy(&s), &mut ints, &mut texts);
            }
        }
        finish(ints, texts)
    })
}

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}

fn finish(ints: BTreeSet<u64>, texts: BTreeSet<String>) -> Literals {
    let mut n: BTreeSet<u32> = [0, 1].into();
    for i in ints {
        for x in [i.wrapping_sub(1), i, i + 1] {
            if let Ok(x) = u32::try_from(x) {
                n.insert(x);
            }
        }
    }
    let mut t: BTreeSet<String> = BTreeSet::new();
    for s in texts {
        // messages
        if s.contains('{') || s.is_empty() || s.len() > 60_000 || (s.len() > 11 && s.contains(' ')) {
            continue;
        }
        t.insert(format!("{s}x"));
        t.insert(format!("x{s}"));
        t.insert(format!("x{s}y"));
        t.insert(s.to_lowercase());
        t.insert(s.to_uppercase());
        t.insert(s.repeat(2));
        t.insert(s);
    }
    Literals { ints: n.into_iter().collect(), texts: t.into_iter().collect() }
}

/// the literals of a source text; a rough scanner is enough, nothing depends on its being complete
fn scan(s: &str, ints: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the number before and the operator after it
    let mut left: Option<u64> = None;
    let mut op = String::new();
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2;
        } else if x == '"' {
            let hashes = (0..i).rev().take_while(|k| c[*k] == '#').count();
            let raw = i > hashes && c[i - hashes - 1] == 'r';
            let mut t = String::new();
            i += 1;
            while i < c.len() {
                if c[i] == '"' && (!raw || (1..=hashes).all(|k| at(i + k) == '#')) {
                    break;
                }
                if c[i] == '\\' && !raw {
                    i = escape(&c, i + 1, &mut t);
                } else {
                    t.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            ints.insert(t.len() as u64);
            texts.insert(t);
            left = None;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                let mut t = String::new();
                i = escape(&c, i + 2, &mut t) + 1;
                texts.insert(t);
            } else if at(i + 2) == '\'' {
                texts.insert(at(i + 1).to_string());
                i += 3;
            } else {
                i += 1;
            }
            left = None;
        } else if x.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut j = i;
            while at(j).is_ascii_alphanumeric() || at(j) == '_' {
                j += 1
            }
            let w: String = c[i..j].iter().filter(|c| **c != '_').collect();
            i = j;
            let Some(n) = number(&w) else { continue };
            ints.insert(n);
            let folded = match (left, op.as_str()) {
                (Some(l), "<<") if n < 33 => l.checked_shl(n as u32),
                (Some(l), "*") => l.checked_mul(n),
                (Some(l), "+") => l.checked_add(n),
                (Some(l), "-") => l.checked_sub(n),
                _ => None,
            };
            ints.extend(folded);
            left = Some(folded.unwrap_or(n));
            op.clear();
        } else {
            if !x.is_whitespace() {
                if "<*+-".contains(x) && op.len() < 2 {
                    op.push(x)
                } else if x != ')' && x != '(' {
                    left = None;
                    op.clear();
                }
            }
            i += 1;
        }
    }
}

fn escape(c: &[char], i: usize, t: &mut String) -> usize {
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    match at(i) {
        'n' => t.push('\n'),
        't' => t.push('\t'),
        'r' => t.push('\r'),
        '0' => t.push('\0'),
        'x' => {
            let h: String = [at(i + 1), at(i + 2)].iter().collect();
            t.push(u8::from_str_radix(&h, 16).unwrap_or(0) as char);
            return i + 3;
        }
        'u' => {
            let mut j = i + 2;
            let mut h = String::new();
            while j < c.len() && c[j] != '}' && h.len() < 8 {
                h.push(c[j]);
                j += 1;
            }
            t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return j + 1;
        }
        '\n' => {}
        x => t.push(x),
    }
    i + 1
}

fn number(w: &str) -> Option<u64> {
    let w = ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "i8"]
        .iter()
        .find_map(|s| w.strip_suffix(s))
        .unwrap_or(w);
    let (digits, radix) = match w.get(..2) {
        Some("0x") => (&w[2..], 16),
        Some("0b") => (&w[2..], 2),
        Some("0o") => (&w[2..], 8),
        _ => (w, 10),
    };
    // in 0b11u8 and 17u8 the end is the type, in 0x1u8 too
    let digits = digits.strip_suffix("u8").unwrap_or(digits);
    u64::from_str_radix(digits, radix).ok()
}

/// the numbers from `lo` to `hi`
pub fn ints(lo: u32, hi: u32) -> &'static [u32] {
    let l = &get().ints;
    let a = l.partition_point(|x| *x < lo);
    let b = l.partition_point(|x| *x <= hi);
    &l[a..b.max(a)]
}

pub fn texts() -> &'static [String] {
    &get().texts
}
