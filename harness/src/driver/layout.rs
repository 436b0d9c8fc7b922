//! The same text, written otherwise: other white space, comments, other spellings of numbers, texts and instants.
use crate::gen::Rng;

const OPEN: &str = "([{";
const CLOSE: &str = ")]}";

fn gap(g: &mut Rng, required: bool) -> String {
    let mut o = String::new();
    let n = if required { 1 } else { 0 } + if g.p(35) { g.n(3) } else { 0 };
    for _ in 0..n {
        o += *g.of(&[" ", " ", "\n", ",", "\t", "\r\n", " , ", "; (a) \"comment\n", ";\n", ";;[ ]{\r"]);
    }
    o
}

fn radix(mut n: i64, b: i64, upper: bool) -> String {
    if n == 0 { return "0".into(); }
    let mut o = vec![];
    while n > 0 { o.push(std::char::from_digit((n % b) as u32, b as u32).unwrap()); n /= b; }
    let s: String = o.iter().rev().collect();
    if upper { s.to_uppercase() } else { s }
}

fn number(g: &mut Rng, t: &str) -> String {
    if t.chars().all(|c| c.is_ascii_digit()) {
        if let Ok(n) = t.parse::<i64>() {
            let up = g.p(50);
            return match g.n(9) {
                0 => format!("+{}", t),
                1 => format!("0x{}", radix(n, 16, up)),
                2 => format!("0{}", radix(n, 8, up)),
                3 => { let b = 2 + g.n(35) as i64; format!("{}r{}", b, radix(n, b, up)) }
                _ => t.into(),
            };
        }
    }
    if !t.contains(|c| c == 'e' || c == 'E') {
        let (a, b) = if t.starts_with('-') { ("-", &t[1..]) } else { ("", t) };
        let ps: Vec<&str> = b.split('.').collect();
        if ps.len() == 2 && ps.iter().all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_digit())) {
            return match g.n(6) {
                0 => format!("{}{}e0", a, b),
                1 => format!("{}{}E+00", a, b),
                2 => format!("{}00{}000", if a.is_empty() { "+" } else { a }, b),
                _ => t.into(),
            };
        }
    }
    t.into()
}

fn instant(g: &mut Rng, s: &str) -> Option<String> {
    let us = chrono::DateTime::parse_from_rfc3339(s).ok()?.timestamp_nanos() / 1000;
    if us < 0 { return None; }
    Some(if us % 1000 == 0 && g.p(50) { format!("#instmillis {}", us / 1000) } else { format!("#instmicros\t{}", us) })
}

pub fn layout(s: &str, seed: u64) -> String {
    let mut g = Rng(seed);
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let closed = |o: &str| o.chars().last().map_or(true, |c| OPEN.contains(c) || CLOSE.contains(c) || c == '"');
    while i < cs.len() {
        let c = cs[i];
        if c == '"' {
            let j = i;
            i += 1;
            while cs[i] != '"' { i += if cs[i] == '\\' { 2 } else { 1 }; }
            i += 1;
            let t: String = cs[j..i].iter().collect();
            if o.ends_with("#inst ") {
                if g.p(40) && t.len() < 34 && t.len() > 20 && &t[1..2] != "+" {
                    if let Some(x) = instant(&mut g, &t[1..t.len() - 1]) { o.truncate(o.len() - 6); o += &x; continue; }
                }
                o += &t;
            } else {
                for c in t.chars() {
                    match c {
                        '\n' if g.p(50) => o += "\\n",
                        '\t' if g.p(50) => o += "\\t",
                        '\r' if g.p(50) => o += "\\r",
                        c => o.push(c),
                    }
                }
            }
        } else if c.is_whitespace() || c == ',' {
            while i < cs.len() && (cs[i].is_whitespace() || cs[i] == ',') { i += 1; }
            if o.ends_with("#inst") || o.ends_with("#uuid") || o.ends_with("#f") { o.push(' '); continue; }
            let free = closed(&o) || i == cs.len() || OPEN.contains(cs[i]) || CLOSE.contains(cs[i]) || cs[i] == '"';
            let r = !free || g.p(60);
            o += &gap(&mut g, r);
        } else if OPEN.contains(c) || CLOSE.contains(c) {
            if !o.ends_with('#') { o += &gap(&mut g, false); }
            o.push(c);
            o += &gap(&mut g, false);
            i += 1;
        } else {
            let j = i;
            while i < cs.len() && !cs[i].is_whitespace() && cs[i] != ',' && cs[i] != '"' && !OPEN.contains(cs[i]) && !CLOSE.contains(cs[i]) { i += 1; }
            let t: String = cs[j..i].iter().collect();
            let d = c.is_ascii_digit() || (c == '-' && cs.get(j + 1).map_or(false, |c| c.is_ascii_digit()));
            o += &if d { number(&mut g, &t) } else { t };
        }
    }
    o
}

/// As `layout`, if the operation asks for it.
pub fn lay(op: &serde_json::Value, s: String) -> String {
    match op["lay"].as_u64() { Some(n) if n > 0 => layout(&s, n), _ => s }
}
