//! Observation: the store's state, projected onto the variables of the specification.
use crate::val::*;
use mentat_core::{HasSchema, Schema};
use mentat_db::PartitionMap;
use serde_json::{json, Value as J};
use std::collections::{BTreeSet, HashMap};

pub type Fact = (i64, i64, Val, i64);
pub type LogE = (i64, i64, i64, Val, bool, i64); // tx e a v added timeline

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Db {
    pub facts: BTreeSet<Fact>,
    pub log: BTreeSet<LogE>,
    pub fdup: i64,
    pub ldup: i64,
    pub sparts: Vec<i64>,
    pub sids: BTreeSet<(String, i64)>,
    pub ssch: BTreeSet<(i64, i64, Val)>,
    pub ftdup: i64,
    pub flags: BTreeSet<(i64, i64, i64, i64, i64)>,
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Mem {
    pub parts: Vec<i64>,
    pub ids: BTreeSet<(String, i64)>,
    pub eids: BTreeSet<(String, i64)>,
    pub sch: BTreeSet<(i64, String, bool, String, bool, bool, bool, bool)>,
    pub comps: Vec<i64>,
    /// where the ways to ask about the schema disagree
    pub odd: Vec<String>,
    pub last: i64,
}

fn ft(conn: &rusqlite::Connection) -> (HashMap<i64, String>, i64) {
    let mut st = conn.prepare_cached("SELECT rowid, text FROM fulltext_values").unwrap();
    let m: HashMap<i64, String> = st.query_map(rusqlite::NO_PARAMS, |r| Ok((r.get(0)?, r.get(1)?))).unwrap().map(|x| x.unwrap()).collect();
    let d: BTreeSet<&String> = m.values().collect();
    let dup = (m.len() - d.len()) as i64;
    (m, dup)
}

pub fn dump(conn: &rusqlite::Connection) -> Db {
    let (ftm, ftdup) = ft(conn);
    let mut d = Db::default();
    d.ftdup = ftdup;
    let mut n = 0;
    {
        let mut st = conn.prepare_cached("SELECT e, a, v, tx, value_type_tag, index_avet, index_vaet, index_fulltext, unique_value FROM datoms").unwrap();
        let mut rows = st.query(rusqlite::NO_PARAMS).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let x: rusqlite::types::Value = r.get(2).unwrap();
            let a: i64 = r.get(1).unwrap();
            d.facts.insert((r.get(0).unwrap(), a, from_sql(&x, r.get(4).unwrap(), &ftm), r.get(3).unwrap()));
            d.flags.insert((a, r.get(5).unwrap(), r.get(6).unwrap(), r.get(7).unwrap(), r.get(8).unwrap()));
            n += 1;
        }
    }
    d.fdup = n - d.facts.len() as i64;
    n = 0;
    {
        let mut st = conn.prepare_cached("SELECT e, a, v, tx, value_type_tag, added, timeline FROM timelined_transactions").unwrap();
        let mut rows = st.query(rusqlite::NO_PARAMS).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let x: rusqlite::types::Value = r.get(2).unwrap();
            let added: i64 = r.get(5).unwrap();
            d.log.insert((r.get(3).unwrap(), r.get(0).unwrap(), r.get(1).unwrap(), from_sql(&x, r.get(4).unwrap(), &ftm), added != 0, r.get(6).unwrap()));
            n += 1;
        }
    }
    d.ldup = n - d.log.len() as i64;
    {
        let mut st = conn.prepare_cached("SELECT part, start, 0, idx FROM parts ORDER BY start").unwrap();
        let mut rows = st.query(rusqlite::NO_PARAMS).unwrap();
        while let Some(r) = rows.next().unwrap() { d.sparts.push(r.get(3).unwrap()); }
    }
    {
        let mut st = conn.prepare_cached("SELECT e, v FROM idents").unwrap();
        let mut rows = st.query(rusqlite::NO_PARAMS).unwrap();
        while let Some(r) = rows.next().unwrap() { d.sids.insert((r.get(1).unwrap(), r.get(0).unwrap())); }
    }
    {
        let mut st = conn.prepare_cached("SELECT e, a, v, value_type_tag FROM schema").unwrap();
        let mut rows = st.query(rusqlite::NO_PARAMS).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let x: rusqlite::types::Value = r.get(2).unwrap();
            d.ssch.insert((r.get(0).unwrap(), r.get(1).unwrap(), from_sql(&x, r.get(3).unwrap(), &ftm)));
        }
    }
    d
}

pub fn vt_name(t: core_traits::ValueType) -> &'static str {
    use core_traits::ValueType::*;
    match t { Ref => "ref", Boolean => "bool", Instant => "inst", Long => "long", Double => "double", String => "str", Keyword => "kw", Uuid => "uuid" }
}

/// Asks about the schema in every other way there is.
fn odd<S: HasSchema>(asked: &S, schema: &Schema) -> Vec<String> {
    use edn::{Keyword, Value};
    let mut o = vec![];
    let mut no = |c: bool, s: String| if !c && o.len() < 5 { o.push(s) };
    for (k, e) in &schema.ident_map {
        no(asked.get_entid(k).map(|x| x.0) == Some(*e), format!("entid of {}", k));
        no(asked.identifies_attribute(k) == schema.attribute_map.contains_key(e), format!("{} an attribute", k));
        no(asked.attribute_for_ident(k) == schema.attribute_map.get(e).map(|a| (a, core_traits::KnownEntid(*e))), format!("attribute of {}", k));
    }
    for (e, k) in &schema.entid_map { no(asked.get_ident(*e) == Some(k), format!("ident of {}", e)); }
    for (e, a) in &schema.attribute_map { no(asked.is_attribute(*e) && asked.attribute_for_entid(*e) == Some(a), format!("attribute {}", e)); }
    for e in &[-1i64, 9_999_999, 268_435_456] { no(asked.get_ident(*e).is_none() && !asked.is_attribute(*e) && asked.attribute_for_entid(*e).is_none(), format!("something of {}", e)); }
    let none = Keyword::namespaced("no.such", "name");
    no(asked.get_entid(&none).is_none() && !asked.identifies_attribute(&none) && asked.attribute_for_ident(&none).is_none(), "something of nothing".into());
    no(asked.component_attributes() == &schema.component_attributes[..], "components".into());
    for (t, n) in &[(core_traits::ValueType::Ref, "ref"), (core_traits::ValueType::Boolean, "boolean"), (core_traits::ValueType::Instant, "instant"), (core_traits::ValueType::Long, "long"),
        (core_traits::ValueType::Double, "double"), (core_traits::ValueType::String, "string"), (core_traits::ValueType::Keyword, "keyword"), (core_traits::ValueType::Uuid, "uuid")] {
        no(asked.entid_for_type(*t).map(|x| x.0) == schema.ident_map.get(&Keyword::namespaced("db.type", *n)).copied(), format!("entid of type {}", n));
    }
    // as a value, to be installed elsewhere
    let kwv = |ns: &str, n: &str| Value::Keyword(Keyword::namespaced(ns, n));
    let all = schema.to_edn_value();
    let all: Vec<&Value> = all.as_vector().map(|v| v.iter().collect()).unwrap_or_default();
    no(all.len() == schema.attribute_map.len(), "attributes as a value".into());
    for (e, a) in &schema.attribute_map {
        let k = match schema.entid_map.get(e) { Some(k) => k, None => continue };
        let id = Value::Keyword(k.clone());
        let m = match all.iter().filter_map(|v| v.as_map()).find(|m| m.get(&kwv("db", "ident")) == Some(&id)) { Some(m) => m, None => { no(false, format!("{} as a value", k)); continue } };
        let t = match vt_name(a.value_type) { "bool" => "boolean", "inst" => "instant", "str" => "string", "kw" => "keyword", x => x };
        let mut want = std::collections::BTreeMap::new();
        want.insert(kwv("db", "ident"), id);
        want.insert(kwv("db", "valueType"), kwv("db.type", t));
        want.insert(kwv("db", "cardinality"), kwv("db.cardinality", if a.multival { "many" } else { "one" }));
        match a.unique { Some(core_traits::attribute::Unique::Value) => { want.insert(kwv("db", "unique"), kwv("db.unique", "value")); } Some(_) => { want.insert(kwv("db", "unique"), kwv("db.unique", "identity")); } None => {} }
        for (f, n) in &[(a.index, "index"), (a.fulltext, "fulltext"), (a.component, "isComponent"), (a.no_history, "noHistory")] { if *f { want.insert(kwv("db", *n), Value::Boolean(true)); } }
        no(*m == want, format!("{} as a value", k));
    }
    o
}

/// As it is seen in an open transaction.
pub fn ip_mem(ip: &mentat_transaction::InProgress) -> Mem {
    let mut m = mem(&ip.schema, &ip.partition_map);
    m.odd = odd(ip, &ip.schema);
    m.last = ip.last_tx_id();
    m
}

pub fn mem(schema: &Schema, pm: &PartitionMap) -> Mem {
    let mut m = Mem::default();
    let mut ps: Vec<(i64, i64)> = pm.values().map(|p| (p.start, p.next_entid())).collect();
    ps.sort();
    m.parts = ps.into_iter().map(|x| x.1).collect();
    for (k, e) in &schema.ident_map { m.ids.insert((k.to_string(), *e)); }
    for (e, k) in &schema.entid_map { m.eids.insert((k.to_string(), *e)); }
    for (e, a) in &schema.attribute_map {
        let u = match a.unique { None => "n", Some(core_traits::attribute::Unique::Value) => "v", Some(core_traits::attribute::Unique::Identity) => "i" };
        m.sch.insert((*e, vt_name(a.value_type).into(), a.multival, u.into(), a.index, a.fulltext, a.component, a.no_history));
    }
    m.comps = schema.component_attributes.clone();
    m.comps.sort();
    m.odd = odd(schema, schema);
    m
}

pub fn fj(f: &Fact) -> J { json!([f.0, f.1, f.2.j(), f.3]) }
pub fn lj(l: &LogE) -> J { json!([l.0, l.1, l.2, l.3.j(), l.4, l.5]) }
pub fn ids_j(s: &BTreeSet<(String, i64)>) -> J { J::Array(s.iter().map(|(k, e)| json!([k, e])).collect()) }

fn opt<T: PartialEq>(a: Option<&T>, b: &T, f: impl Fn(&T) -> J) -> J {
    if a == Some(b) { json!([]) } else { json!([f(b)]) }
}

pub fn db_delta(a: &Db, b: &Db, first: bool) -> J {
    json!({
        "fp": b.facts.difference(&a.facts).map(fj).collect::<Vec<_>>(),
        "fm": a.facts.difference(&b.facts).map(fj).collect::<Vec<_>>(),
        "lp": b.log.difference(&a.log).map(lj).collect::<Vec<_>>(),
        "lm": a.log.difference(&b.log).map(lj).collect::<Vec<_>>(),
        "dup": b.fdup + b.ldup + b.ftdup,
        "sparts": b.sparts,
        "sids": opt(if first {None} else {Some(&a.sids)}, &b.sids, ids_j),
        "ssch": opt(if first {None} else {Some(&a.ssch)}, &b.ssch, |s| J::Array(s.iter().map(|x| json!([x.0, x.1, x.2.j()])).collect())),
        "flags": opt(if first {None} else {Some(&a.flags)}, &b.flags, |s| J::Array(s.iter().map(|x| json!([x.0, x.1, x.2, x.3, x.4])).collect())),
    })
}

pub fn mem_delta(a: &Mem, b: &Mem, first: bool) -> J {
    json!({
        "parts": b.parts,
        "ids": opt(if first {None} else {Some(&a.ids)}, &b.ids, ids_j),
        "eids": opt(if first {None} else {Some(&a.eids)}, &b.eids, ids_j),
        "sch": opt(if first {None} else {Some(&a.sch)}, &b.sch, |s| J::Array(s.iter().map(|x| json!({"e": x.0, "vt": x.1, "many": x.2, "uniq": x.3, "idx": x.4, "ft": x.5, "comp": x.6, "nh": x.7})).collect())),
        "comps": b.comps,
        "odd": b.odd,
        "last": b.last,
    })
}
