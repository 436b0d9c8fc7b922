//! Vocabularies.
use crate::exec::{err, guard, ok, View};
use crate::gen::{At, Gen, POOL};
use crate::val::*;
use core_traits::attribute::Unique;
use core_traits::ValueType;
use mentat::vocabulary::{Definition, HasVocabularies, SimpleVocabularySource, VersionedStore, VocabularyOutcome};
use mentat::{Attribute, InProgress};
use serde_json::{json, Value as J};

fn vt(s: &str) -> ValueType {
    use ValueType::*;
    match s { "ref" => Ref, "bool" => Boolean, "inst" => Instant, "long" => Long, "double" => Double, "str" => String, "kw" => Keyword, "uuid" => Uuid, x => panic!("type {}", x) }
}

fn definition(op: &J) -> Definition {
    let attrs: Vec<_> = op["attrs"].as_array().unwrap().iter().map(|a| {
        (kwp(a["kw"].as_str().unwrap()), Attribute {
            value_type: vt(a["vt"].as_str().unwrap()),
            multival: a["many"] == true,
            unique: match a["uniq"].as_str().unwrap() { "v" => Some(Unique::Value), "i" => Some(Unique::Identity), _ => None },
            index: a["idx"] == true, fulltext: a["ft"] == true, component: a["comp"] == true, no_history: a["nh"] == true,
        })
    }).collect();
    Definition::new(kwp(op["name"].as_str().unwrap()), op["version"].as_u64().unwrap() as u32, attrs)
}

pub fn ensure(ip: &mut InProgress, op: &J) -> J {
    let d = definition(op);
    guard(|| {
        let r = if op["via"] == "many" {
            let name = d.name.clone();
            let mut src = SimpleVocabularySource::with_definitions(vec![d]);
            ip.ensure_vocabularies(&mut src).map(|mut m| m.remove(&name).unwrap())
        } else { ip.ensure_vocabulary(&d) };
        match r {
            Ok(o) => ok(json!({"out": match o {
                VocabularyOutcome::Installed => "installed",
                VocabularyOutcome::InstalledMissingAttributes => "missing",
                VocabularyOutcome::Existed => "existed",
                VocabularyOutcome::Upgraded => "upgraded",
            }})),
            Err(e) => err(e.to_string()),
        }
    })
}

pub fn read(ip: &InProgress) -> J {
    guard(|| match ip.read_vocabularies() {
        Ok(vs) => {
            for (n, v) in vs.iter() {
                // one at a time it is the same
                match ip.read_vocabulary_named(n) {
                    Ok(Some(w)) => {
                        let mut a = v.attributes().clone(); let mut b = w.attributes().clone();
                        a.sort_by_key(|x| x.0); b.sort_by_key(|x| x.0);
                        if w.entity != v.entity || w.version != v.version || a != b { return err(format!("{} differs", n)); }
                    }
                    _ => return err(format!("{} is not found", n)),
                }
            }
            ok(json!({"vocs": vs.iter().map(|(n, v)| json!({"name": n.to_string(), "e": v.entity, "v": v.version, "as": v.attributes().iter().map(|a| a.0).collect::<Vec<_>>()})).collect::<Vec<_>>()}))
        }
        Err(e) => err(e.to_string()),
    })
}

fn attr(g: &mut Gen, ats: &[At]) -> J {
    let mut a = if !ats.is_empty() && g.rng.p(60) {
        let a = g.rng.of(ats).clone();
        json!({"kw": a.kw, "vt": a.vt, "many": a.many, "uniq": a.uniq, "idx": a.idx, "ft": a.ft, "comp": a.comp, "nh": a.nh})
    } else {
        let p = g.rng.of(POOL);
        let p = (p.2, p.3, p.4, p.5, p.6, p.7);
        let k = format!(":w/x{}", g.rng.n(5));
        json!({"kw": k, "vt": p.0, "many": p.1, "uniq": p.2, "idx": p.3, "ft": p.4, "comp": p.5, "nh": false})
    };
    if g.rng.p(30) {
        match g.rng.n(6) {
            0 => { let x = a["many"] == true; a["many"] = json!(!x); }
            1 | 2 => { a["uniq"] = json!(*g.rng.of(&["n", "v", "i"])); if a["uniq"] != "n" { a["idx"] = json!(true); } }
            3 => { let x = a["idx"] == true; a["idx"] = json!(!x); }
            4 => { let x = a["comp"] == true; a["comp"] = json!(!x); }
            _ => { if g.rng.p(40) { a["nh"] = json!(true); } }
        }
    }
    a
}

pub fn op(g: &mut Gen, v: &View) -> J {
    if g.rng.p(22) { return json!({"k": "vocabs"}); }
    let ats: Vec<At> = Gen::attrs(v);
    // ensure the last one again, perhaps changed
    if !g.lastvoc.is_null() && g.rng.p(45) {
        let mut d = g.lastvoc.clone();
        if g.rng.p(30) { d["version"] = json!(1 + g.rng.n(5)); }
        if g.rng.p(30) { let a = attr(g, &ats); if d["attrs"].as_array().unwrap().iter().all(|x| x["kw"] != a["kw"]) { d["attrs"].as_array_mut().unwrap().push(a); } }
        if g.rng.p(20) { let n = d["attrs"].as_array().unwrap().len(); if n > 0 { let i = g.rng.n(n); d["attrs"].as_array_mut().unwrap().remove(i); } }
        if g.rng.p(20) { let n = d["attrs"].as_array().unwrap().len(); if n > 0 { let i = g.rng.n(n); let u = *g.rng.of(&["n", "v", "i"]); d["attrs"][i]["uniq"] = json!(u); if u != "n" { d["attrs"][i]["idx"] = json!(true); } } }
        if d["attrs"].as_array().unwrap().len() <= 5 { g.lastvoc = d.clone(); return d; }
    }
    let mut attrs: Vec<J> = vec![];
    for _ in 0..g.rng.n(4) { let a = attr(g, &ats); if attrs.iter().all(|x| x["kw"] != a["kw"]) { attrs.push(a); } }
    let name = if g.rng.p(95) { format!(":v/v{}", g.rng.n(3)) } else { ats.first().map(|a| a.kw.clone()).unwrap_or(":v/v0".into()) };
    let d = json!({"k": "vocab", "name": name, "version": 1 + g.rng.n(4), "attrs": attrs, "via": if g.rng.p(30) { "many" } else { "one" }});
    g.lastvoc = d.clone();
    d
}
