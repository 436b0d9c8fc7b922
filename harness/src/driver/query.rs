//! Queries: the abstract syntax (JSON) rendered as text, run, and the result recorded.
use crate::exec::guard;
use crate::val::*;
use core_traits::{Binding, ValueType};
use edn::query::Variable;
use mentat::{QueryInputs, QueryResults, Queryable};
use serde_json::{json, Value as J};
use std::cmp::Ordering;

fn place(p: &J) -> String {
    match p["k"].as_str().unwrap() {
        "_" => "_".into(),
        "var" => p["v"].as_str().unwrap().into(),
        "int" => p["n"].to_string(),
        "kw" => p["s"].as_str().unwrap().into(),
        "val" => Val::from_j(&p["x"]).edn(),
        x => panic!("query place {}", x),
    }
}
fn strs(j: &J) -> Vec<String> { j.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }
fn places(j: &J) -> String { j.as_array().unwrap().iter().map(place).collect::<Vec<_>>().join(" ") }
fn clauses(j: &J) -> String { j.as_array().unwrap().iter().map(clause).collect::<Vec<_>>().join(" ") }

pub fn clause(c: &J) -> String {
    match c["k"].as_str().unwrap() {
        "pat" => {
            let mut o = format!("[{} {}", place(&c["e"]), place(&c["a"]));
            let (v, t) = (c["v"]["k"] != "_", c["tx"]["k"] != "_");
            if v || t { o += &format!(" {}", place(&c["v"])); }
            if t { o += &format!(" {}", place(&c["tx"])); }
            o + "]"
        }
        "not" => if c["join"] == true { format!("(not-join [{}] {})", strs(&c["vars"]).join(" "), clauses(&c["cs"])) } else { format!("(not {})", clauses(&c["cs"])) },
        "or" => {
            let arms: Vec<String> = c["arms"].as_array().unwrap().iter()
                .map(|a| if a.as_array().unwrap().len() == 1 { clauses(a) } else { format!("(and {})", clauses(a)) }).collect();
            if c["join"] == true { format!("(or-join [{}] {})", strs(&c["vars"]).join(" "), arms.join(" ")) } else { format!("(or {})", arms.join(" ")) }
        }
        "pred" => format!("[({} {} {})]", c["fn"].as_str().unwrap(), place(&c["l"]), place(&c["r"])),
        "type" => format!("[(type {} {})]", c["v"].as_str().unwrap(), crate::gen::vt_kw(c["t"].as_str().unwrap())),
        "ground" => {
            let vs = strs(&c["vars"]);
            let lit = |v: &J| Val::from_j(v).edn();
            let row = |r: &J| r.as_array().unwrap().iter().map(lit).collect::<Vec<_>>().join(" ");
            let rows = c["rows"].as_array().unwrap();
            match c["b"].as_str().unwrap() {
                "scalar" => format!("[(ground {}) {}]", row(&rows[0]), vs[0]),
                "tuple" => format!("[(ground [{}]) [{}]]", row(&rows[0]), vs.join(" ")),
                "coll" => format!("[(ground [{}]) [{} ...]]", rows.iter().map(|r| row(r)).collect::<Vec<_>>().join(" "), vs[0]),
                _ => format!("[(ground [{}]) [[{}]]]", rows.iter().map(|r| format!("[{}]", row(r))).collect::<Vec<_>>().join(" "), vs.join(" ")),
            }
        }
        "ft" => format!("[(fulltext $ {} {}) [[{}]]]", place(&c["a"]), place(&c["s"]), strs(&c["vars"]).join(" ")),
        "txids" => if c["coll"] == true { format!("[(tx-ids $ {} {}) [{} ...]]", place(&c["lo"]), place(&c["hi"]), strs(&c["vars"])[0]) }
            else { format!("[(tx-ids $ {} {}) [[{}]]]", place(&c["lo"]), place(&c["hi"]), strs(&c["vars"])[0]) },
        "txdata" => format!("[(tx-data $ {}) [[{}]]]", place(&c["tx"]), strs(&c["vars"]).join(" ")),
        x => panic!("clause {}", x),
    }
}

fn elem(e: &J) -> String {
    let v = e["v"].as_str().unwrap();
    match e["k"].as_str().unwrap() {
        "var" => v.into(),
        "the" => format!("(the {})", v),
        "agg" => format!("({} {})", e["fn"].as_str().unwrap(), v),
        "pull" => format!("(pull {} [{}])", v, e["as"].as_array().unwrap().iter().map(|a| {
            let k = a["a"].as_str().unwrap();
            if a["as"].as_str().unwrap().is_empty() { k.to_string() } else { format!("{} :as {}", k, a["as"].as_str().unwrap()) }
        }).collect::<Vec<_>>().join(" ")),
        x => panic!("elem {}", x),
    }
}

pub fn text(op: &J) -> String {
    let es: Vec<String> = op["find"]["es"].as_array().unwrap().iter().map(elem).collect();
    let mut parts = vec![format!(":find {}", match op["find"]["k"].as_str().unwrap() {
        "rel" => es.join(" "),
        "coll" => format!("[{} ...]", es[0]),
        "tuple" => format!("[{}]", es.join(" ")),
        _ => format!("{} .", es[0]),
    })];
    let lay = op["lay"].as_u64().unwrap_or(0);
    let mut g = crate::gen::Rng(lay);
    let with = strs(&op["with"]);
    if !with.is_empty() { parts.push(format!(":with {}", with.join(" "))); }
    let ins: Vec<String> = op["in"].as_array().unwrap().iter().map(|x| x["v"].as_str().unwrap().to_string()).collect();
    if !ins.is_empty() { parts.push(format!(":in {}", ins.join(" "))); }
    parts.push(format!(":where {}", clauses(&op["where"])));
    let ord = op["order"].as_array().unwrap();
    if !ord.is_empty() {
        parts.push(format!(":order {}", ord.iter().map(|x| {
            let v = x["v"].as_str().unwrap();
            if x["asc"] == true { if lay > 0 && g.p(40) { v.to_string() } else { format!("(asc {})", v) } } else { format!("(desc {})", v) }
        }).collect::<Vec<_>>().join(" ")));
    }
    if op["limit"].as_i64().unwrap() > 0 { parts.push(format!(":limit {}", op["limit"])); }
    if lay > 0 { for i in (1..parts.len()).rev() { let j = g.n(i + 1); parts.swap(i, j); } }
    crate::layout::lay(op, format!("[{}]", parts.join(" ")))
}

pub fn inputs(op: &J) -> QueryInputs {
    QueryInputs::with_value_sequence(op["in"].as_array().unwrap().iter()
        .map(|x| (Variable::from_valid_name(x["v"].as_str().unwrap()), Val::from_j(&x["x"]).typed())).collect())
}

fn bind(b: &Binding) -> J {
    let mut j = from_binding(b);
    // Averages need not be tenths.
    if let Binding::Scalar(core_traits::TypedValue::Double(d)) = b {
        let m = d.into_inner() * 1000.0;
        if m.abs() < 2e9 { j["m"] = json!(m.round() as i64); }
    }
    j
}

pub fn results(q: &QueryResults) -> J {
    match q {
        QueryResults::Scalar(x) => json!({"find": "scalar", "w": 1, "rows": x.iter().map(|b| json!([bind(b)])).collect::<Vec<_>>()}),
        QueryResults::Tuple(x) => json!({"find": "tuple", "w": x.as_ref().map(|v| v.len()).unwrap_or(0), "rows": x.iter().map(|r| json!(r.iter().map(bind).collect::<Vec<_>>())).collect::<Vec<_>>()}),
        QueryResults::Coll(xs) => json!({"find": "coll", "w": 1, "rows": xs.iter().map(|b| json!([bind(b)])).collect::<Vec<_>>()}),
        QueryResults::Rel(r) => json!({"find": "rel", "w": r.width, "rows": r.rows().map(|x| J::Array(x.iter().map(bind).collect())).collect::<Vec<_>>()}),
    }
}

pub fn refused(e: &str) -> J {
    json!({"ok": false, "panic": false, "cls": if e.contains("unable to use function MATCH") { "match" } else { "" }, "msg": e.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(160).collect::<String>()})
}
pub fn answered(r: Result<QueryResults, String>) -> J {
    match r {
        Ok(o) => { let mut j = results(&o); j["ok"] = json!(true); j["panic"] = json!(false); j["msg"] = json!(""); j }
        Err(e) => refused(&e),
    }
}

pub fn run<Q: Queryable>(q: &Q, op: &J) -> J {
    let t = text(op);
    let how = op["via"].as_str().unwrap_or("once");
    let mut r = guard(|| {
        let out = match how {
            "once" => q.q_once(&t, inputs(op)),
            _ => match q.q_prepare(&t, inputs(op)) {
                // A prepared query gives the same answer each time it is run.
                Ok(mut p) => { if how == "prepare2" { let _ = p.run(None); } p.run(None) }
                Err(e) => Err(e),
            },
        };
        match out {
            Ok(o) => { let mut j = results(&o.results); j["ok"] = json!(true); j["panic"] = json!(false); j["msg"] = json!(""); j }
            Err(e) => refused(&e.to_string()),
        }
    });
    if crate::doors::is(op, "explain") { r["explain"] = json!(crate::doors::explain(q, &t, inputs(op))); }
    r["text"] = json!(t);
    r
}

fn num_cmp(a: &Val, b: &Val) -> Ordering {
    if a.t == "long" && b.t == "long" { return a.int().cmp(&b.int()); }
    let f = |x: &Val| if x.t == "long" { x.int() as f64 } else { x.f() };
    f(a).partial_cmp(&f(b)).unwrap_or(Ordering::Equal)
}
fn class(v: &Val) -> u8 { match v.t.as_str() { "long" | "double" => 0, "str" => 1, "kw" => 2, "inst" => 3, "uuid" => 4, _ => 5 } }
/// The order of the values: [[value, rank], ...]; values of one type are comparable, and numbers.
pub fn ranks(mut vs: Vec<Val>) -> J {
    vs.retain(|v| class(v) < 5);
    vs.sort_by(|a, b| class(a).cmp(&class(b)).then_with(|| if class(a) == 0 { num_cmp(a, b).then_with(|| a.t.cmp(&b.t)) } else { a.s.as_bytes().cmp(b.s.as_bytes()) }));
    vs.dedup();
    let mut o = vec![];
    let mut n = 0;
    for i in 0..vs.len() {
        if i > 0 && !(class(&vs[i]) == 0 && class(&vs[i - 1]) == 0 && num_cmp(&vs[i], &vs[i - 1]) == Ordering::Equal) { n += 1; }
        o.push(json!([vs[i].j(), n]));
    }
    J::Array(o)
}

/// Every constant of a query.
pub fn consts(j: &J, out: &mut Vec<Val>) {
    match j {
        J::Object(m) => {
            if m.contains_key("t") && m.contains_key("n") && m.contains_key("s") { out.push(Val::from_j(j)); return; }
            if m.get("k").map(|k| k == "int").unwrap_or(false) { out.push(long(m["n"].as_i64().unwrap())); return; }
            for x in m.values() { consts(x, out); }
        }
        J::Array(a) => for x in a { consts(x, out); },
        _ => {}
    }
}

/// The words of a text, as the full-text index splits it.
pub fn words(s: &str) -> Vec<String> {
    let mut o: Vec<String> = s.split(|c: char| !(c.is_ascii_alphanumeric() || !c.is_ascii())).filter(|w| !w.is_empty()).map(|w| w.chars().map(|c| c.to_ascii_lowercase()).collect()).collect();
    o.sort();
    o.dedup();
    o
}

#[allow(dead_code)]
pub fn unused(_: ValueType) {}
