//! The notation: texts are generated, read by the library, and printed again.
use crate::exec::{err, guard, ok, View};
use crate::gen::*;
use chrono::{DateTime, Timelike, Utc};
use edn::types::Value;
use serde_json::{json, Value as J};

fn chars(s: &str) -> J { J::Array(s.chars().map(|c| json!(c.to_string())).collect()) }
fn text(j: &J) -> String { j.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
fn node(t: &str, s: String, xs: Vec<J>) -> J { json!({"t": t, "s": s, "xs": xs}) }

/// digits and a power of ten
fn float(f: f64) -> String {
    if f.is_nan() { return "nan".into(); }
    if f.is_infinite() { return if f > 0.0 { "inf".into() } else { "-inf".into() }; }
    if f == 0.0 { return "0".into(); }
    let s = format!("{:e}", f);
    let i = s.find('e').unwrap();
    let e: i64 = s[i + 1..].parse().unwrap();
    let m = &s[..i];
    let (neg, m) = if m.starts_with('-') { ("-", &m[1..]) } else { ("", m) };
    let fr = m.find('.').map(|p| m.len() - p - 1).unwrap_or(0) as i64;
    let mut ds: String = m.chars().filter(|c| *c != '.').collect();
    let mut e = e - fr;
    while ds.ends_with('0') { ds.pop(); e += 1; }
    format!("{}{}e{}", neg, ds.trim_start_matches('0'), e)
}

fn inst(d: &DateTime<Utc>) -> String {
    let t = d.timestamp();
    format!("{}:{}:{}", t.div_euclid(86400), t.rem_euclid(86400), d.nanosecond())
}

fn tree(v: &Value) -> J {
    match v {
        Value::Nil => node("nil", "".into(), vec![]),
        Value::Boolean(b) => node("bool", b.to_string(), vec![]),
        Value::Integer(i) => node("int", i.to_string(), vec![]),
        Value::BigInteger(i) => node("big", i.to_string(), vec![]),
        Value::Float(f) => node("float", float(f.into_inner()), vec![]),
        Value::Instant(d) => node("inst", inst(d), vec![]),
        Value::Text(s) => node("text", s.clone(), vec![]),
        Value::Uuid(u) => node("uuid", u.to_hyphenated().to_string(), vec![]),
        Value::PlainSymbol(s) => node("sym", s.to_string(), vec![]),
        Value::NamespacedSymbol(s) => node("symn", s.to_string(), vec![]),
        Value::Keyword(k) => node(if k.is_namespaced() { "kwn" } else { "kw" }, k.to_string()[1..].to_string(), vec![]),
        Value::Vector(xs) => node("vec", "".into(), xs.iter().map(tree).collect()),
        Value::List(xs) => node("list", "".into(), xs.iter().map(tree).collect()),
        Value::Set(xs) => node("set", "".into(), xs.iter().map(tree).collect()),
        Value::Map(m) => node("map", "".into(), m.iter().flat_map(|(k, v)| vec![tree(k), tree(v)]).collect()),
    }
}

pub fn read(op: &J) -> J {
    let s = text(&op["cs"]);
    let width = op["width"].as_u64().unwrap_or(40) as usize;
    guard(|| match edn::parse::value(&s) {
        Ok(v) => {
            let v = v.without_spans();
            ok(json!({"tree": tree(&v), "shown": chars(&v.to_string()), "pretty": chars(&v.to_pretty(width).unwrap())}))
        }
        Err(_) => err("refused".into()),
    })
}

// ---- generation ---------------------------------------------------------------------------------

fn digits(g: &mut Gen, n: usize, set: &[u8]) -> String { (0..n).map(|_| *g.rng.of(set) as char).collect() }
const D: &[u8] = b"0123456789";

fn name(g: &mut Gen) -> String {
    let xs = ["a", "b", "foo", "x-y", "a1", "?x", "_r", "*", "A_b", "f+", "%", "nil", "true", "k!", "<=", "n", "r2", "e"];
    g.rng.of(&xs).to_string()
}
fn ns(g: &mut Gen) -> String {
    let mut s = name(g);
    for _ in 0..g.rng.n(3) { s.push('.'); let xs = ["b", "c-d", "1", "+", "z9"]; s.push_str(*g.rng.of(&xs)); }
    s
}

fn atom(g: &mut Gen) -> String {
    match g.rng.w(&[3, 4, 12, 3, 3, 3, 4, 10, 8, 4, 4, 12, 4, 6, 8, 3]) {
        0 => "nil".into(),
        1 => if g.rng.p(50) { "true".into() } else { "false".into() },
        2 => {
            let s = *g.rng.of(&["", "", "-", "+"]);
            let n = *g.rng.of(&[1usize, 1, 2, 5, 10, 18, 19, 20, 30]);
            let d = if g.rng.p(15) { *g.rng.of(&["9223372036854775807", "9223372036854775808", "9223372036854775809", "0", "00", "4294967296"]) } else { "" };
            if d.is_empty() { format!("{}{}", s, digits(g, n, D)) } else { format!("{}{}", s, d) }
        }
        3 => { let n = 1 + g.rng.n(25); format!("{}{}N", if g.rng.p(30) { "-" } else { "" }, digits(g, n, D)) }
        4 => { let n = *g.rng.of(&[1usize, 2, 8, 16, 17]); format!("0x{}", digits(g, n, b"0123456789abcdefABCDEF")) }
        5 => { let n = *g.rng.of(&[1usize, 2, 5, 21, 24]); let set: &[u8] = if g.rng.p(90) { b"01234567" } else { D }; format!("0{}", digits(g, n, set)) }
        6 => {
            let b = 2 + g.rng.n(35);
            let all = b"0123456789abcdefghijklmnopqrstuvwxyz";
            let k = if g.rng.p(88) { b } else { 36 };
            let n = *g.rng.of(&[1usize, 2, 5, 11]);
            let s = digits(g, n, &all[..k]);
            format!("{}r{}", b, if g.rng.p(30) { s.to_uppercase() } else { s })
        }
        7 => {
            let a = 1 + g.rng.n(6); let b = 1 + g.rng.n(6);
            let s = *g.rng.of(&["", "", "-", "+"]);
            let m = digits(g, a, D);
            let f = if g.rng.p(75) { format!(".{}", digits(g, b, D)) } else { String::new() };
            let e = if f.is_empty() || g.rng.p(40) { let n = 1 + g.rng.n(2); format!("{}{}{}", if g.rng.p(50) { "e" } else { "E" }, *g.rng.of(&["", "-", "+"]), digits(g, n, D)) } else { String::new() };
            format!("{}{}{}{}", s, m, f, e)
        }
        8 => {
            let (far, odd, leap) = (g.rng.p(20), g.rng.p(5), g.rng.p(5));
            let (y, m, d) = (digits(g, 4, D), g.rng.n(13), 1 + g.rng.n(if far { 32 } else { 28 }));
            let y = if g.rng.p(60) { (*g.rng.of(&["2018", "1970", "2000", "1900", "1969", "2016", "9999", "0001"])).to_string() } else { y };
            let (m, d) = if g.rng.p(20) { (2, 29) } else { (if g.rng.p(90) { 1 + m % 12 } else { m }, d) };
            let n = 1 + g.rng.n(10);
            let f = if g.rng.p(50) { format!(".{}", digits(g, n, D)) } else { String::new() };
            let z = if g.rng.p(50) { "Z".to_string() } else { format!("{}{:02}:{:02}", if g.rng.p(50) { "+" } else { "-" }, g.rng.n(15), *g.rng.of(&[0, 30, 45])) };
            let h = g.rng.n(if odd { 30 } else { 24 });
            format!("#inst \"{}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}\"", y, m, d, h, g.rng.n(60), g.rng.n(if leap { 62 } else { 60 }), f, z)
        }
        9 => { let n = *g.rng.of(&[1usize, 3, 6, 7, 10, 13, 16, 17, 19, 25]); format!("#instmicros {}", digits(g, n, D)) }
        10 => { let n = *g.rng.of(&[1usize, 3, 4, 10, 13, 14, 17, 19, 25]); format!("#instmillis {}", digits(g, n, D)) }
        11 => {
            let mut s = String::from("\"");
            let xs = ["a", "b", " ", "hello", "\\\"", "\\\\", "\\n", "\\t", "\\r", "\n", "\t", ";", "[", "}", "\u{e9}", "\u{4e2d}", "\u{1f600}", "n", "#", "'", ",", "\\u0041", "\\x"];
            let k = if g.rng.p(92) { xs.len() - 2 } else { xs.len() };
            for _ in 0..g.rng.n(7) { let x = xs[g.rng.n(k)]; s.push_str(x); }
            s.push('"'); s
        }
        12 => { let h = b"0123456789abcdef"; format!("#uuid \"{}-{}-{}-{}-{}\"", digits(g, 8, h), digits(g, 4, h), digits(g, 4, h), digits(g, 4, h), digits(g, 12, h)) }
        13 => { let a = name(g); if g.rng.p(50) { a } else if g.rng.p(85) { format!("{}/{}", ns(g), a) } else { (*g.rng.of(&[".", "...", "$", "?x"])).to_string() } }
        14 => { let a = name(g); if g.rng.p(35) { format!(":{}", a) } else { format!(":{}/{}", ns(g), a) } }
        _ => (*g.rng.of(&["#f NaN", "#f +Infinity", "#f -Infinity", "#f  NaN"])).to_string(),
    }
}

fn sep(g: &mut Gen, must: bool) -> String {
    let xs = [" ", " ", " ", ", ", "\n", "\t", ",", " ; note\n", ";]\n", "\r\n", "  "];
    if !must && g.rng.p(70) { return String::new(); }
    let s = *g.rng.of(&xs);
    s.to_string()
}

fn value(g: &mut Gen, depth: usize) -> String {
    if depth == 0 || g.rng.p(45) { return atom(g); }
    let (o, c) = *g.rng.of(&[("[", "]"), ("(", ")"), ("{", "}"), ("#{", "}")]);
    let mut n = g.rng.n(5);
    if o == "{" && n % 2 == 1 && g.rng.p(93) { n += 1; }
    let mut s = String::from(o);
    s.push_str(&sep(g, false));
    for i in 0..n {
        if i > 0 { s.push_str(&sep(g, true)); }
        s.push_str(&value(g, depth - 1));
    }
    s.push_str(&sep(g, false));
    s.push_str(c);
    s
}

/// Damage a text.
pub fn damage(g: &mut Gen, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let pool: Vec<char> = "[](){}\"\\;#:/.@^-+0189anNrx?_ \n,e'".chars().collect();
    for _ in 0..1 + g.rng.n(3) {
        if cs.is_empty() { break; }
        let i = g.rng.n(cs.len());
        match g.rng.n(5) {
            0 => { cs.remove(i); }
            1 => { let c = *g.rng.of(&pool); cs.insert(i, c); }
            2 => { let c = *g.rng.of(&pool); cs[i] = c; }
            3 => { let j = (i + 1 + g.rng.n(6)).min(cs.len()); let part: Vec<char> = cs[i..j].to_vec(); for c in part { cs.insert(i, c); } }
            _ => { let j = g.rng.n(cs.len()); cs.swap(i, j); }
        }
    }
    cs.into_iter().collect()
}

pub fn op(g: &mut Gen, v: &View) -> J {
    let mut s = if v.last["shown"].is_array() && g.rng.p(12) { text(&v.last[*g.rng.of(&["shown", "pretty"])]) }
        else { let d = g.rng.n(4); value(g, d) };
    if s.len() > 400 { s = atom(g); }
    if g.rng.p(20) { s = damage(g, &s); }
    if g.rng.p(15) { s = format!("{}{}{}", sep(g, true), s, sep(g, true)); }
    json!({"k": "edn", "cs": chars(&s), "width": *g.rng.of(&[10, 40, 120])})
}

/// The words and brackets of a text.
fn words(s: &str) -> Vec<String> {
    let mut o = vec![];
    let mut cur = String::new();
    let mut quoted = false;
    for c in s.chars() {
        if quoted { cur.push(c); if c == '"' { quoted = false; o.push(std::mem::take(&mut cur)); } continue; }
        match c {
            '"' => { if !cur.is_empty() { o.push(std::mem::take(&mut cur)); } cur.push(c); quoted = true; }
            '[' | ']' | '(' | ')' | '{' | '}' => { if !cur.is_empty() { o.push(std::mem::take(&mut cur)); } o.push(c.to_string()); }
            c if c.is_whitespace() || c == ',' => if !cur.is_empty() { o.push(std::mem::take(&mut cur)); },
            c => cur.push(c),
        }
    }
    if !cur.is_empty() { o.push(cur); }
    o
}

/// Exchange words of a query.
fn reword(g: &mut Gen, s: &str) -> String {
    let mut ws = words(s);
    let pool = ["_", "?x", "?y", "0", "-1", "1", "10000000000", "1.5", "true", ":limit", ":order", ":in", ":with", ":where", ":find", "(count ?x)", "(the ?x)", "(max ?y)", "(sum ?x)", "not", "or", "or-join", "not-join",
        "[?x]", "[?x ...]", "[[?x ?y]]", "...", ".", "asc", "(desc ?x)", ":db/ident", ":t/_", ":t/l1", "$", "ground", "tx-ids", "tx-data", "fulltext", "type", "<", "!=", "nil", "5N", "$foo", ":no/such", "\"a\"", "#inst \"2018-01-01T00:00:00Z\"", "(pull ?x [*])", "pull", "*", ":db.type/ref",
        "[?x :t/l1 ?y]", "[$foo ?x :t/l1 ?y]", "[?x :t/l1 5N]", "(or [:no/such :t/l1 ?x] [:no/other :t/l1 ?x])", "[(< ?x 1)]", "[(ground 1) ?x]", "(or [?x :t/l1 ?y] [?x :t/d1 ?y])", "(not [?x :t/l1 ?y])", "[[tx-ids $ 1 2] [[?x]]]", "[(type ?x :db.type/long)]"];
    let times = if g.rng.p(65) { 1 } else { 2 + g.rng.n(2) };
    for _ in 0..times {
        if ws.is_empty() { break; }
        let i = g.rng.n(ws.len());
        match g.rng.n(5) {
            0 => { ws.remove(i); }
            1 => { let w = g.rng.of(&pool).to_string(); ws.insert(i, w); }
            2 => { let w = g.rng.of(&pool).to_string(); ws[i] = w; }
            3 => { let j = g.rng.n(ws.len()); ws[i] = ws[j].clone(); }
            _ => { let j = g.rng.n(ws.len()); ws.swap(i, j); }
        }
    }
    ws.join(" ")
}

/// A damaged transaction or query: it may be refused, or do something, which is undone.
pub fn text_op(g: &mut Gen, v: &View) -> Option<J> {
    if g.rng.p(55) {
        let q = crate::genq::query(g, v)?;
        let s = crate::query::text(&q);
        let s = match g.rng.w(&[20, 72, 8]) { 0 => damage(g, &s), 1 => reword(g, &s), _ => s };
        Some(json!({"k": "text", "what": "q", "s": s}))
    } else {
        let t = g.gen_tx(v);
        let s = crate::edn_text::terms(&t["terms"]);
        let s = if g.rng.p(30) { reword(g, &s) } else if g.rng.p(50) {
            // a number becomes a great one
            let i = s.char_indices().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect::<Vec<_>>();
            if i.is_empty() { s } else { let j = *g.rng.of(&i); let a = atom(g); format!("{}{}{}", &s[..j], a, &s[j + 1..]) }
        } else { damage(g, &s) };
        Some(json!({"k": "text", "what": "tx", "s": s}))
    }
}

pub fn run_text(store: &mut mentat::Store, op: &J) -> J {
    use mentat::Queryable;
    let s = op["s"].as_str().unwrap();
    guard(|| {
        if op["what"] == "q" { return match store.q_once(s, None) { Ok(_) => ok(json!({})), Err(_) => err("refused".into()) }; }
        match store.begin_transaction() {
            Ok(mut ip) => { let r = match ip.transact(s) { Ok(_) => ok(json!({})), Err(_) => err("refused".into()) }; let _ = ip.rollback(); r }
            Err(e) => err(e.to_string()),
        }
    })
}
