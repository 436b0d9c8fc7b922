//! Operations of the connection: caches, observers, pulls, lookups.
use crate::exec::View;
use crate::gen::*;
use crate::val::Val;
use serde_json::{json, Value as J};

pub fn setup(g: &mut Gen) -> Vec<J> {
    if !g.is("sync") || g.rng.p(8) { return vec![]; }
    let mut o = vec![json!({"k": "sync"})];
    for i in 1..3 { if g.rng.p(85) { o.push(json!({"k": "sw", "rep": i})); o.push(json!({"k": "sync"})); } }
    o
}
pub fn ranks() -> J { json!([]) }

fn cache(g: &mut Gen, v: &View) -> Option<J> {
    let ats = Gen::attrs(v);
    if ats.is_empty() { return None; }
    let k = if g.rng.p(4) { let xs = [":no/such", ":db.type/string", ":db/doc", ":db/ident"]; xs[g.rng.n(4)].to_string() } else { g.rng.of(&ats).kw.clone() };
    let d = *g.rng.of(&["f", "f", "r", "b", "b"]);
    let act = if g.rng.p(28) { "dereg" } else { "reg" };
    // what is no longer to be cached is mostly something that is
    let k = if act == "dereg" && !g.cached.is_empty() && g.rng.p(75) { g.rng.of(&g.cached.clone()).clone() } else { k };
    if act == "reg" { g.cached.push(k.clone()); }
    Some(json!({"k": "cache", "a": k, "dir": d, "act": act}))
}

fn look(g: &mut Gen, v: &View) -> Option<J> {
    let ats = Gen::attrs(v);
    if ats.is_empty() { return None; }
    let how = if v.in_ip || g.rng.p(60) { "store" } else { "read" };
    // mostly something that is, or was, there
    let mut fs: Vec<(i64, i64)> = v.db.facts.iter().filter(|f| f.1 > 40).map(|f| (f.0, f.1)).collect();
    if g.rng.p(30) { fs.extend(v.db.log.iter().filter(|l| l.2 > 40 && !l.4).map(|l| (l.1, l.2))); }
    if !fs.is_empty() && g.rng.p(75) {
        let (e, a) = *g.rng.of(&fs);
        if let Some(x) = ats.iter().find(|x| x.e == a) { return Some(json!({"k": "look", "e": e, "a": x.kw, "how": how})); }
    }
    let es = Gen::ents(v);
    let e = if es.is_empty() || g.rng.p(10) { 65536 } else { *g.rng.of(&es) };
    let k = if g.rng.p(5) { let xs = [":no/such", ":db/ident", ":db.type/string", ":db/doc"]; xs[g.rng.n(4)].to_string() } else { g.rng.of(&ats).kw.clone() };
    Some(json!({"k": "look", "e": e, "a": k, "how": how}))
}

/// A query of one pattern over what is, or was, there: the shape that caches answer.
fn ask(g: &mut Gen, v: &View) -> Option<J> {
    let ats = Gen::attrs(v);
    let mut fs: Vec<(i64, i64, Val)> = v.db.facts.iter().filter(|f| f.1 > 40).map(|f| (f.0, f.1, f.2.clone())).collect();
    if g.rng.p(60) {
        // what was replaced or retracted, the latest of it first
        let old: Vec<(i64, i64, Val)> = v.db.log.iter().rev().filter(|l| l.2 > 40 && !l.4).take(8).map(|l| (l.1, l.2, l.3.clone())).collect();
        if !old.is_empty() { fs = old; }
    }
    // what a cache in reverse answers, mostly
    if g.rng.p(75) {
        let near: Vec<(i64, i64, Val)> = fs.iter().filter(|f| ats.iter().any(|y| y.e == f.1 && y.vt != "long" && y.vt != "ref" && g.cached.contains(&y.kw))).cloned().collect();
        if !near.is_empty() { fs = near; }
    }
    if fs.is_empty() { return None; }
    let (e, a, x) = g.rng.of(&fs).clone();
    let at = ats.iter().find(|y| y.e == a)?.clone();
    let var = |n: &str| json!({"k": "var", "v": n});
    let (pe, px) = match g.rng.w(&[62, 26, 12]) {
        0 => (var("?e"), crate::genq::lit(&x)),
        1 => (json!({"k": "int", "n": e}), var("?v")),
        _ => (var("?e"), var("?v")),
    };
    let pa = if g.rng.p(90) { json!({"k": "kw", "s": at.kw}) } else { json!({"k": "int", "n": a}) };
    let mut es: Vec<J> = vec![];
    if pe["k"] == "var" { es.push(pe.clone()); }
    if px["k"] == "var" { es.push(px.clone()); }
    let mut cs = vec![json!({"k": "pat", "e": pe, "a": pa, "v": px, "tx": {"k": "_"}})];
    if pe["k"] == "var" && g.rng.p(25) {
        let y = g.rng.of(&ats).clone();
        cs.push(json!({"k": "pat", "e": pe, "a": {"k": "kw", "s": y.kw}, "v": {"k": "var", "v": "?w"}, "tx": {"k": "_"}}));
        es.push(var("?w"));
    }
    let kind = if es.len() > 1 { "rel" } else { *g.rng.of(&["rel", "coll", "scalar"]) };
    let how = if v.in_ip || g.rng.p(60) { "store" } else { "read" };
    let via = *g.rng.of(&["once", "once", "prepare", "prepare2"]);
    Some(json!({"k": "q", "how": how, "via": via, "find": {"k": kind, "es": es}, "with": [], "in": [], "where": cs, "order": [], "limit": 0,
        "rk": false, "ft": false, "lg": false}))
}

fn pull(g: &mut Gen, v: &View) -> Option<J> {
    let ats = Gen::attrs(v);
    if ats.is_empty() { return None; }
    let mut es = Gen::ents(v);
    es.push(65536);
    es.push(1);
    es.push(268435457);
    let n = 1 + g.rng.n(4);
    let mut qs: Vec<i64> = (0..n).map(|_| *g.rng.of(&es)).collect();
    qs.sort(); qs.dedup();
    let m = 1 + g.rng.n(5);
    let mut az: Vec<i64> = (0..m).map(|_| if g.rng.p(6) { *g.rng.of(&[1, 3, 10, 27, 65536, 9999]) } else { g.rng.of(&ats).e }).collect();
    az.sort(); az.dedup();
    let how = if v.in_ip || g.rng.p(60) { "store" } else { "read" };
    Some(json!({"k": "pull", "es": qs, "as": az, "how": how}))
}

fn observe(g: &mut Gen, v: &View) -> Option<J> {
    let key = format!("o{}", g.rng.n(3));
    if g.rng.p(25) { return Some(json!({"k": "unobs", "key": key})); }
    let ats = Gen::attrs(v);
    if ats.is_empty() { return None; }
    let n = g.rng.n(4);
    let mut az: Vec<i64> = (0..n).map(|_| if g.rng.p(10) { *g.rng.of(&[1, 3, 9, 9999]) } else { g.rng.of(&ats).e }).collect();
    az.sort(); az.dedup();
    Some(json!({"k": "obs", "key": key, "as": az}))
}

fn mv(g: &mut Gen, v: &View) -> Option<J> {
    let last = v.mem.parts[2] - 1;
    let from = if g.rng.p(92) { (last - g.rng.n(4) as i64).max(268435457) } else { last + 1 };
    g.fresh += 1;
    let tl = if g.rng.p(88) { 1000 + g.fresh as i64 } else { g.rng.n(4) as i64 };
    Some(json!({"k": "move", "from": from, "tl": tl}))
}

/// One call in four or so goes through the client that speaks HTTP.
fn sync(g: &mut Gen, v: &View) -> J {
    let mut op = sync_op(g, v);
    if g.rng.p(25) { op["http"] = json!(g.rng.n(5)); }
    op
}

fn sync_op(g: &mut Gen, v: &View) -> J {
    if g.rng.p(14) {
        // The calls of an upload: one for each row, one for each transaction, and one for the head.
        let n = if g.rng.p(50) { 1 + g.rng.n(25) } else {
            let last = v.db.log.iter().filter(|l| l.5 == 0).map(|l| l.0).max().unwrap_or(0);
            let k = g.rng.n(4) as i64;
            let rows = v.db.log.iter().filter(|l| l.5 == 0 && l.0 > last - k).count() as i64;
            // one for reading the head comes first; the last one sets it
            (1 + rows + k) as usize
        };
        json!({"k": "sync", "calls": n, "lost": g.rng.p(60)})
    } else { json!({"k": "sync"}) }
}

pub fn op(g: &mut Gen, v: &View) -> Option<J> {
    match g.profile.as_str() {
        "time" if !v.in_ip && v.last_op["k"] != "move" && g.rng.p(18) => mv(g, v),
        "sync" if !v.in_ip => match g.rng.w(&[20, 26, 54]) {
            0 => Some(json!({"k": "sw", "rep": g.rng.n(3)})),
            1 => Some(sync(g, v)),
            _ => None,
        },
        "cache" => match g.rng.w(&[13, 4, 24, 25, 34]) {
            0 => cache(g, v),
            1 if v.in_ip => Some(json!({"k": "use", "on": g.rng.p(60)})),
            2 => look(g, v),
            3 => ask(g, v),
            _ => None,
        },
        "observe" => match g.rng.w(&[18, 82]) {
            0 if !v.in_ip => observe(g, v),
            _ => None,
        },
        "vocab" => if g.rng.p(55) { Some(crate::vocab::op(g, v)) } else { None },
        "fault" => match g.rng.w(&[8, 8, 5, 4, 6, 69]) {
            0 => cache(g, v),
            1 => look(g, v),
            2 => pull(g, v),
            3 if !v.in_ip => observe(g, v),
            4 => crate::genq::query(g, v),
            _ => None,
        },
        "pull" => if g.rng.p(50) { pull(g, v) } else { None },
        "query" | "find" | "fts" | "txlog" => match g.rng.w(&[62, 7, 31]) {
            0 => crate::genq::query(g, v),
            1 => cache(g, v),
            _ => None,
        },
        "edn" if !v.in_ip => match g.rng.w(&[40, 16, 22, 22]) {
            0 => Some(crate::notation::op(g, v)),
            1 => crate::notation::text_op(g, v),
            2 => crate::genq::query(g, v),
            _ => None,
        },
        "mixed" => match g.rng.w(&[3, 4, 3, 2, 88]) {
            0 => cache(g, v),
            1 => look(g, v),
            2 => pull(g, v),
            3 if !v.in_ip => observe(g, v),
            _ => None,
        },
        _ => None,
    }
}
