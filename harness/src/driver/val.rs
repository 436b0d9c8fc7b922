//! Uniform values: every value of the store, of a transaction and of a query result is a record
//! {t, n, s}, because the specification (TLC) compares records with records only.
use chrono::{TimeZone, Utc};
use edn::ToMicros;
use core_traits::{Binding, TypedValue};
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val {
    pub t: String,
    pub n: i64,
    pub s: String,
}

pub const LIM: i64 = 2_000_000_000;

pub fn v(t: &str, n: i64, s: &str) -> Val {
    Val { t: t.into(), n, s: s.into() }
}
pub fn rf(n: i64) -> Val { num("ref", n) }
pub fn num(t: &str, n: i64) -> Val {
    if n <= LIM && n >= -LIM { v(t, n, "") } else { v(t, 0, &n.to_string()) }
}
pub fn long(n: i64) -> Val { num("long", n) }
pub fn kw(s: &str) -> Val { v("kw", 0, s) }
pub fn st(s: &str) -> Val { v("str", 0, s) }
pub fn bool_(b: bool) -> Val { v("bool", b as i64, "") }
pub fn dbl(f: f64) -> Val {
    let x = f * 10.0;
    if x.fract() == 0.0 && x.abs() < 1e9 && (x.to_bits() != (-0.0f64).to_bits()) {
        v("double", x as i64, "")
    } else {
        v("double", 0, &format!("{:?}", f))
    }
}
/// zero has no sign
fn zero(f: f64) -> f64 { if f == 0.0 { 0.0 } else { f } }
/// microseconds since the epoch, rendered
pub fn inst_s(micros: i64) -> String {
    let d = Utc.timestamp(micros.div_euclid(1_000_000), micros.rem_euclid(1_000_000) as u32 * 1000);
    d.format("%Y-%m-%dT%H:%M:%S%.6fZ").to_string()
}
pub fn inst(micros: i64) -> Val { v("inst", 0, &inst_s(micros)) }

impl Val {
    pub fn j(&self) -> J { json!({"t": self.t, "n": self.n, "s": self.s}) }
    pub fn from_j(j: &J) -> Val {
        v(j["t"].as_str().unwrap(), j["n"].as_i64().unwrap(), j["s"].as_str().unwrap())
    }
    pub fn int(&self) -> i64 {
        if self.s.is_empty() { self.n } else { self.s.parse().unwrap() }
    }
    pub fn f(&self) -> f64 {
        if self.s.is_empty() { self.n as f64 / 10.0 } else { self.s.parse().unwrap() }
    }
    /// EDN text of a value as it is written in a transaction or a query.
    pub fn edn(&self) -> String {
        match self.t.as_str() {
            "ref" | "long" => self.int().to_string(),
            "bool" => if self.n == 1 { "true".into() } else { "false".into() },
            "double" => {
                let f = self.f();
                if f.is_nan() { "#f NaN".into() }
                else if f.is_infinite() { if f > 0.0 { "#f +Infinity".into() } else { "#f -Infinity".into() } }
                else { format!("{:?}", f) }
            }
            "str" => format!("\"{}\"", self.s.replace('\\', "\\\\").replace('"', "\\\"")),
            "kw" => self.s.clone(),
            "inst" => format!("#inst \"{}\"", self.s),
            "uuid" => format!("#uuid \"{}\"", self.s),
            x => panic!("edn of {}", x),
        }
    }
    pub fn typed(&self) -> TypedValue {
        match self.t.as_str() {
            "ref" => TypedValue::Ref(self.int()),
            "long" => TypedValue::Long(self.int()),
            "bool" => TypedValue::Boolean(self.n == 1),
            "double" => TypedValue::Double(self.f().into()),
            "str" => TypedValue::typed_string(&self.s),
            "kw" => TypedValue::Keyword(kwp(&self.s).into()),
            "inst" => TypedValue::Instant(
                chrono::DateTime::parse_from_rfc3339(&self.s).unwrap().with_timezone(&Utc)),
            "uuid" => TypedValue::Uuid(uuid::Uuid::parse_str(&self.s).unwrap()),
            x => panic!("typed of {}", x),
        }
    }
}

pub fn kwp(s: &str) -> edn::Keyword {
    let s = s.trim_start_matches(':');
    match s.find('/') {
        Some(i) => edn::Keyword::namespaced(&s[..i], &s[i + 1..]),
        None => edn::Keyword::plain(s),
    }
}

pub fn from_typed(t: &TypedValue) -> Val {
    match t {
        TypedValue::Ref(x) => rf(*x),
        TypedValue::Long(x) => long(*x),
        TypedValue::Boolean(b) => bool_(*b),
        TypedValue::Double(d) => dbl(zero(d.into_inner())),
        TypedValue::String(s) => st(s.as_str()),
        TypedValue::Keyword(k) => kw(&k.to_string()),
        TypedValue::Instant(i) => inst(i.to_micros()),
        TypedValue::Uuid(u) => v("uuid", 0, &u.to_hyphenated().to_string()),
    }
}

/// A value of a query result; pulled maps become lists of pairs.
pub fn from_binding(b: &Binding) -> J {
    match b {
        Binding::Scalar(t) => from_typed(t).j(),
        Binding::Vec(xs) => json!({"t": "vec", "n": 0, "s": "", "xs": xs.iter().map(from_binding).collect::<Vec<_>>()}),
        Binding::Map(m) => json!({"t": "map", "n": 0, "s": "", "kvs": map_j(m)}),
    }
}
pub fn map_j(m: &core_traits::StructuredMap) -> J {
    let mut kvs: Vec<(String, J)> = m.0.iter().map(|(k, x)| (k.to_string(), from_binding(x))).collect();
    kvs.sort_by(|a, b| a.0.cmp(&b.0));
    J::Array(kvs.into_iter().map(|(k, x)| json!({"k": k, "v": x})).collect())
}

/// Decode a stored value: independent of the store's own decoding.
pub fn from_sql(x: &rusqlite::types::Value, tag: i64, ft: &std::collections::HashMap<i64, String>) -> Val {
    use rusqlite::types::Value::*;
    match (tag, x) {
        (0, Integer(n)) => rf(*n),
        (1, Integer(n)) => bool_(*n != 0),
        (4, Integer(n)) => inst(*n),
        (5, Integer(n)) => long(*n),
        (5, Real(f)) => dbl(zero(*f)),
        (10, Text(s)) => st(s),
        (10, Integer(n)) => match ft.get(n) { Some(s) => st(s), None => v("badft", *n, "") },
        (11, Blob(b)) if b.len() == 16 => v("uuid", 0, &uuid::Uuid::from_slice(b).unwrap().to_hyphenated().to_string()),
        (13, Text(s)) => kw(s),
        _ => v("bad", tag, &format!("{:?}", x)),
    }
}

#[allow(dead_code)]
pub fn utc(secs: i64) -> chrono::DateTime<Utc> { Utc.timestamp(secs, 0) }
