//! Rendering of the abstract syntax of transactions (JSON) as EDN text.
use crate::val::*;
use serde_json::Value as J;

pub fn attr(a: &J) -> String {
    let k = a["kw"].as_str().unwrap();
    if k.is_empty() { return a["n"].to_string(); }
    if a["rev"].as_bool().unwrap_or(false) {
        let i = k.find('/').unwrap();
        format!("{}/_{}", &k[..i], &k[i + 1..])
    } else { k.to_string() }
}

pub fn place(p: &J) -> String {
    match p["k"].as_str().unwrap() {
        "val" => Val::from_j(&p["v"]).edn(),
        "lu" => format!("(lookup-ref {} {})", attr(&p["a"]), Val::from_j(&p["v"]).edn()),
        "tx" => "(transaction-tx)".to_string(),
        "vec" => format!("[{}]", p["xs"].as_array().unwrap().iter().map(place).collect::<Vec<_>>().join(" ")),
        "map" => map(p),
        x => panic!("place {}", x),
    }
}

pub fn map(p: &J) -> String {
    let mut o = vec![];
    if p["id"]["k"] != "none" { o.push(format!(":db/id {}", place(&p["id"]))); }
    for kv in p["kvs"].as_array().unwrap() { o.push(format!("{} {}", attr(&kv["a"]), place(&kv["v"]))); }
    format!("{{{}}}", o.join(" "))
}

pub fn term(t: &J) -> String {
    match t["k"].as_str().unwrap() {
        "add" => format!("[:db/add {} {} {}]", place(&t["e"]), attr(&t["a"]), place(&t["v"])),
        "ret" => format!("[:db/retract {} {} {}]", place(&t["e"]), attr(&t["a"]), place(&t["v"])),
        "map" => map(t),
        x => panic!("term {}", x),
    }
}

pub fn terms(ts: &J) -> String {
    format!("[{}]", ts.as_array().unwrap().iter().map(term).collect::<Vec<_>>().join("\n "))
}
