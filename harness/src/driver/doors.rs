//! The same store by its other doors: the interface for C, the query builder, past the caches, one
//! entity at a time, from a file.
use crate::exec::{err, ok};
use crate::gen::Rng;
use crate::val::*;
use core_traits::{Binding, TypedValue, ValueType};
use edn::query::Variable;
use edn::ToMicros;
use mentat::{InProgress, Pullable, Queryable, QueryBuilder, QueryInputs, QueryResults, RelResult, Store};
use mentat_core::TxReport;
use mentat_db::PartitionMap;
use mentat_ffi as c;
use mentat_ffi::utils::error::ExternError;
use serde_json::{json, Value as J};
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::ptr::null_mut;
use std::sync::{Mutex, Weak};

pub fn is(op: &J, d: &str) -> bool { op["door"] == d }

fn cs(s: &str) -> CString { CString::new(s).unwrap() }
fn take(p: *mut c_char) -> String {
    unsafe {
        let s = CStr::from_ptr(p).to_str().unwrap().to_string();
        c::rust_c_string_destroy(p);
        s
    }
}
/// What a function for C answers: a pointer, or an error.
fn call<T>(f: impl FnOnce(*mut ExternError) -> T) -> Result<T, String> {
    // Whatever was there before means nothing.
    let mut e = ExternError { message: null_mut() };
    let p = f(&mut e);
    if e.message.is_null() { Ok(p) } else { Err(take(e.message)) }
}
fn done(r: Result<(), String>) -> J { match r { Ok(()) => ok(json!({})), Err(e) => err(e) } }

// ---- opening, beginning, ending ---------------------------------------------------------------

pub fn open(path: &str) -> Result<Store, String> {
    let p = cs(path);
    call(|e| unsafe { c::store_open(p.as_ptr(), e) }).map(|s| unsafe { *Box::from_raw(s) })
}
pub fn close(s: Store) { unsafe { c::store_destroy(Box::into_raw(Box::new(s))) } }
pub fn begin<'a>(s: *mut Store) -> Result<InProgress<'a, 'a>, String> {
    call(|e| unsafe { c::store_begin_transaction::<'a, 'a>(s, e) }).map(|p| unsafe { *Box::from_raw(p) })
}
fn loose(ip: InProgress) -> *mut InProgress<'static, 'static> {
    Box::into_raw(Box::new(ip)) as *mut InProgress as *mut InProgress<'static, 'static>
}
pub fn commit(ip: InProgress) -> J { let p = loose(ip); done(call(|e| unsafe { c::in_progress_commit(p, e) })) }
pub fn rollback(ip: InProgress) -> J { let p = loose(ip); done(call(|e| unsafe { c::in_progress_rollback(p, e) })) }
pub fn discard(ip: InProgress) { unsafe { c::in_progress_destroy(loose(ip)) } }

// ---- transacting ------------------------------------------------------------------------------

/// A report, as it is seen from C.
fn report(p: *mut TxReport) -> J {
    unsafe {
        let exact = (*p).tx_instant;
        let id = |k: &str| {
            let k = cs(k);
            let n = c::tx_report_entity_for_temp_id(p, k.as_ptr());
            if n.is_null() { None } else { Some(*Box::from_raw(n)) }
        };
        let keys: Vec<String> = (*p).tempids.keys().cloned().collect();
        let tids: Vec<J> = keys.iter().map(|k| json!([k, id(k).unwrap_or(0)])).collect();
        let stray = id("no such temporary id");
        let secs = c::tx_report_get_tx_instant(p);
        let r = json!({"txid": c::tx_report_get_entid(p), "inst": inst(exact.to_micros()).j(), "tids": tids,
            "door": {"secs": [pair(exact.to_micros(), secs)], "stray": stray.is_some(), "ids": []}});
        c::tx_report_destroy(p);
        r
    }
}
/// An instant, and the seconds it was said to be.
fn pair(micros: i64, secs: i64) -> J { json!([micros.div_euclid(1_000_000).to_string(), secs.to_string()]) }

fn transacted(r: Result<*mut TxReport, String>) -> J { match r { Ok(p) => ok(report(p)), Err(e) => err(e) } }

pub fn tx(s: *mut Store, text: &str) -> J {
    let t = cs(text);
    transacted(call(|e| unsafe { c::store_transact(s, t.as_ptr(), e) }))
}
pub fn ip_tx(ip: &mut InProgress, text: &str) -> J {
    let t = cs(text);
    let p = ip as *mut InProgress as *mut InProgress<'static, 'static>;
    transacted(call(|e| unsafe { c::in_progress_transact(p, t.as_ptr(), e) }))
}

/// Can the builders for C say this?
pub fn plain(terms: &J) -> bool {
    let ts = terms.as_array().unwrap();
    let e = |t: &J| t["e"]["k"] == "val" && (t["e"]["v"]["t"] == "long" || (t["e"]["v"]["t"] == "str" && ts.iter().all(|u| u["e"] == t["e"])));
    !ts.is_empty() && ts.iter().all(|t| {
        let a = t["a"]["kw"].as_str().unwrap_or("");
        e(t) && t["v"]["k"] == "val" && a.contains('/') && t["a"]["rev"] != true
            && (t["v"]["v"]["t"] != "kw" || t["v"]["v"]["s"].as_str().unwrap().contains('/')) && !t["v"]["v"]["s"].as_str().unwrap().contains('\0')
    })
}

type Ipb<'a> = *mut c::InProgressBuilder<'a, 'a>;
type Eb<'a> = *mut c::EntityBuilder<c::InProgressBuilder<'a, 'a>>;

fn say(b: Ipb, t: &J) -> Result<(), String> {
    let e = Val::from_j(&t["e"]["v"]).int();
    let a = cs(t["a"]["kw"].as_str().unwrap());
    let a = a.as_ptr();
    let v = Val::from_j(&t["v"]["v"]);
    let s = cs(&v.s);
    let sp = s.as_ptr();
    let u = uuid::Uuid::parse_str(&v.s).map(|u| *u.as_bytes()).unwrap_or([0; 16]);
    let micros = || match v.typed() { TypedValue::Instant(i) => i.to_micros(), _ => 0 };
    call(|x| unsafe {
        match (t["k"] == "add", v.t.as_str()) {
            (true, "str") => c::in_progress_builder_add_string(b, e, a, sp, x),
            (true, "long") => c::in_progress_builder_add_long(b, e, a, v.int(), x),
            (true, "ref") => c::in_progress_builder_add_ref(b, e, a, v.int(), x),
            (true, "kw") => c::in_progress_builder_add_keyword(b, e, a, sp, x),
            (true, "bool") => c::in_progress_builder_add_boolean(b, e, a, v.n == 1, x),
            (true, "double") => c::in_progress_builder_add_double(b, e, a, v.f(), x),
            (true, "inst") => c::in_progress_builder_add_timestamp(b, e, a, micros(), x),
            (true, _) => c::in_progress_builder_add_uuid(b, e, a, &u, x),
            (false, "str") => c::in_progress_builder_retract_string(b, e, a, sp, x),
            (false, "long") => c::in_progress_builder_retract_long(b, e, a, v.int(), x),
            (false, "ref") => c::in_progress_builder_retract_ref(b, e, a, v.int(), x),
            (false, "kw") => c::in_progress_builder_retract_keyword(b, e, a, sp, x),
            (false, "bool") => c::in_progress_builder_retract_boolean(b, e, a, v.n == 1, x),
            (false, "double") => c::in_progress_builder_retract_double(b, e, a, v.f(), x),
            (false, "inst") => c::in_progress_builder_retract_timestamp(b, e, a, micros(), x),
            (false, _) => c::in_progress_builder_retract_uuid(b, e, a, &u, x),
        }
    })
}
fn tell(b: Eb, t: &J) -> Result<(), String> {
    let a = cs(t["a"]["kw"].as_str().unwrap());
    let a = a.as_ptr();
    let v = Val::from_j(&t["v"]["v"]);
    let s = cs(&v.s);
    let sp = s.as_ptr();
    let u = uuid::Uuid::parse_str(&v.s).map(|u| *u.as_bytes()).unwrap_or([0; 16]);
    let micros = || match v.typed() { TypedValue::Instant(i) => i.to_micros(), _ => 0 };
    call(|x| unsafe {
        match (t["k"] == "add", v.t.as_str()) {
            (true, "str") => c::entity_builder_add_string(b, a, sp, x),
            (true, "long") => c::entity_builder_add_long(b, a, v.int(), x),
            (true, "ref") => c::entity_builder_add_ref(b, a, v.int(), x),
            (true, "kw") => c::entity_builder_add_keyword(b, a, sp, x),
            (true, "bool") => c::entity_builder_add_boolean(b, a, v.n == 1, x),
            (true, "double") => c::entity_builder_add_double(b, a, v.f(), x),
            (true, "inst") => c::entity_builder_add_timestamp(b, a, micros(), x),
            (true, _) => c::entity_builder_add_uuid(b, a, &u, x),
            (false, "str") => c::entity_builder_retract_string(b, a, sp, x),
            (false, "long") => c::entity_builder_retract_long(b, a, v.int(), x),
            (false, "ref") => c::entity_builder_retract_ref(b, a, v.int(), x),
            (false, "kw") => c::entity_builder_retract_keyword(b, a, sp, x),
            (false, "bool") => c::entity_builder_retract_boolean(b, a, v.n == 1, x),
            (false, "double") => c::entity_builder_retract_double(b, a, v.f(), x),
            (false, "inst") => c::entity_builder_retract_timestamp(b, a, micros(), x),
            (false, _) => c::entity_builder_retract_uuid(b, a, &u, x),
        }
    })
}

/// Is everything said of one entity?
fn one(op: &J) -> bool { let ts = op["terms"].as_array().unwrap(); ts.iter().all(|t| t["e"] == ts[0]["e"]) && (ts[0]["e"]["v"]["t"] == "str" || op["one"] == true) }

pub fn build(s: *mut Store, op: &J) -> J {
    let ts = op["terms"].as_array().unwrap();
    if one(op) {
        let e = Val::from_j(&ts[0]["e"]["v"]);
        let b = if e.t == "str" { let n = cs(&e.s); call(|x| unsafe { c::store_entity_builder_from_temp_id(s, n.as_ptr(), x) }) }
            else { call(|x| unsafe { c::store_entity_builder_from_entid(s, e.int(), x) }) };
        let b = match b { Ok(b) => b, Err(e) => return err(e) };
        for t in ts { if let Err(e) = tell(b, t) { unsafe { c::entity_builder_destroy(b) }; return err(e); } }
        transacted(call(|x| unsafe { c::entity_builder_commit(b, x) }))
    } else {
        let b = match call(|x| unsafe { c::store_in_progress_builder(s, x) }) { Ok(b) => b, Err(e) => return err(e) };
        for t in ts { if let Err(e) = say(b, t) { unsafe { c::in_progress_builder_destroy(b) }; return err(e); } }
        transacted(call(|x| unsafe { c::in_progress_builder_commit(b, x) }))
    }
}
pub fn ip_build<'a, 'c>(ip: InProgress<'a, 'c>, op: &J) -> (InProgress<'a, 'c>, J) {
    let ts = op["terms"].as_array().unwrap();
    let p = loose(ip);
    let mut bad = None;
    let r = unsafe {
        if one(op) {
            let e = Val::from_j(&ts[0]["e"]["v"]);
            let b = if e.t == "str" { let n = cs(&e.s); c::in_progress_entity_builder_from_temp_id(p, n.as_ptr()) } else { c::in_progress_entity_builder_from_entid(p, e.int()) };
            for t in ts { if let Err(e) = tell(b, t) { bad = Some(e); } }
            c::entity_builder_transact(b)
        } else {
            let b = c::in_progress_builder(p);
            for t in ts { if let Err(e) = say(b, t) { bad = Some(e); } }
            c::in_progress_builder_transact(b)
        }
    };
    let j = match bad {
        Some(e) => err(e),
        None => transacted(if r.err.message.is_null() { Ok(r.tx_report) } else { Err(take(r.err.message)) }),
    };
    let ip = unsafe { *Box::from_raw(r.in_progress as *mut InProgress as *mut InProgress<'a, 'c>) };
    (ip, j)
}

/// From a file, and as terms that were read before.
pub fn import(ip: &mut InProgress, dir: &str, text: &str) -> Result<TxReport, String> {
    let f = format!("{}/import.edn", dir);
    std::fs::write(&f, text).unwrap();
    let r = ip.import(&f).map_err(|e| e.to_string());
    let _ = std::fs::remove_file(&f);
    r
}
pub fn entities(ip: &mut InProgress, text: &str) -> Result<TxReport, String> {
    let es = edn::parse::entities(text).map_err(|e| e.to_string())?;
    ip.transact_entities(es).map_err(|e| e.to_string())
}

// ---- reading ----------------------------------------------------------------------------------

/// A value, by way of C, and whatever was said of instants.
fn value(b: *mut Binding, secs: &mut Vec<J>) -> Binding {
    unsafe {
        let exact = (*b).clone();
        let x = match exact { Binding::Scalar(ref t) => t.clone(), _ => { c::typed_value_destroy(b); return exact; } };
        Binding::Scalar(match c::typed_value_value_type(b) {
            ValueType::Long => TypedValue::Long(c::typed_value_into_long(b)),
            ValueType::Ref => TypedValue::Ref(c::typed_value_into_entid(b)),
            ValueType::Keyword => TypedValue::Keyword(kwp(&take(c::typed_value_into_kw(b))).into()),
            ValueType::Boolean => TypedValue::Boolean(c::typed_value_into_boolean(b) != 0),
            ValueType::Double => TypedValue::Double(c::typed_value_into_double(b).into()),
            ValueType::String => TypedValue::typed_string(&take(c::typed_value_into_string(b))),
            ValueType::Uuid => { let u = c::typed_value_into_uuid(b); let r = uuid::Uuid::from_slice(&*u).unwrap(); c::uuid_destroy(u); TypedValue::Uuid(r) }
            ValueType::Instant => { let n = c::typed_value_into_timestamp(b); if let TypedValue::Instant(i) = x { secs.push(pair(i.to_micros(), n)); } x }
        })
    }
}
/// The value at a place of a row.
fn at(row: *mut Vec<Binding>, i: usize, exact: &Binding, secs: &mut Vec<J>) -> Binding {
    let n = i as i32;
    unsafe {
        let x = match exact { Binding::Scalar(t) => t.clone(), o => return o.clone() };
        Binding::Scalar(match x.value_type() {
            ValueType::Long => TypedValue::Long(c::value_at_index_into_long(row, n)),
            ValueType::Ref => TypedValue::Ref(c::value_at_index_into_entid(row, n)),
            ValueType::Keyword => TypedValue::Keyword(kwp(&take(c::value_at_index_into_kw(row, n))).into()),
            ValueType::Boolean => TypedValue::Boolean(c::value_at_index_into_boolean(row, n) != 0),
            ValueType::Double => TypedValue::Double(c::value_at_index_into_double(row, n).into()),
            ValueType::String => TypedValue::typed_string(&take(c::value_at_index_into_string(row, n))),
            ValueType::Uuid => { let u = c::value_at_index_into_uuid(row, n); let r = uuid::Uuid::from_slice(&*u).unwrap(); c::uuid_destroy(u); TypedValue::Uuid(r) }
            ValueType::Instant => { let s = c::value_at_index_into_timestamp(row, n); if let TypedValue::Instant(i) = x { secs.push(pair(i.to_micros(), s)); } x }
        })
    }
}
/// The values of a row, in one of the ways to have them; the row is used up.
fn row(r: *mut Vec<Binding>, g: &mut Rng, secs: &mut Vec<J>, past: &mut bool) -> Vec<Binding> {
    unsafe {
        let n = (*r).len();
        match g.n(3) {
            0 => {
                let o = (0..n).map(|i| at(r, i, &(*r)[i], secs)).collect();
                c::typed_value_list_destroy(r);
                o
            }
            1 => {
                let o = (0..n).map(|i| value(c::value_at_index(r, i as i32), secs)).collect();
                // there is nothing after the last one, nor before the first
                if !c::value_at_index(r, n as i32).is_null() || !c::value_at_index(r, -1).is_null() { *past = true; }
                c::typed_value_list_destroy(r);
                o
            }
            _ => {
                let it = c::typed_value_list_into_iter(r);
                let mut o = vec![];
                loop { let b = c::typed_value_list_iter_next(it); if b.is_null() { break; } o.push(value(b, secs)); }
                c::typed_value_list_iter_destroy(it);
                o
            }
        }
    }
}
fn rows(rel: *mut RelResult<Binding>, g: &mut Rng, secs: &mut Vec<J>, past: &mut bool) -> RelResult<Binding> {
    unsafe {
        let width = (*rel).width;
        let mut values = vec![];
        if g.p(50) {
            let mut i = 0;
            loop { let r = c::row_at_index(rel, i); if r.is_null() { break; } values.extend(row(r, g, secs, past)); i += 1; }
            if !c::row_at_index(rel, i + 1).is_null() || !c::row_at_index(rel, -1).is_null() { *past = true; }
        } else {
            let it = c::typed_value_result_set_into_iter(rel);
            loop { let r = c::typed_value_result_set_iter_next(it); if r.is_null() { break; } values.extend(row(r, g, secs, past)); }
            c::typed_value_result_set_iter_destroy(it);
        }
        c::typed_value_result_set_destroy(rel);
        RelResult { width, values }
    }
}

pub fn query(s: *mut Store, op: &J, text: &str, idents: &dyn Fn(i64) -> Option<String>) -> J {
    let t = cs(text);
    let mut g = Rng(op["lay"].as_u64().unwrap_or(0) ^ text.len() as u64 ^ 0x5bd1e995);
    let (mut secs, mut past) = (vec![], false);
    let r = unsafe {
        let q = c::store_query(s, t.as_ptr());
        for x in op["in"].as_array().unwrap() {
            let n = cs(x["v"].as_str().unwrap());
            let n = n.as_ptr();
            let v = Val::from_j(&x["x"]);
            let s = cs(&v.s);
            match v.typed() {
                TypedValue::Long(i) => c::query_builder_bind_long(q, n, i),
                TypedValue::Ref(i) => match idents(i) {
                    Some(k) if g.p(60) => { let k = cs(&k); c::query_builder_bind_ref_kw(q, n, k.as_ptr()) }
                    _ => c::query_builder_bind_ref(q, n, i),
                },
                TypedValue::Keyword(_) => c::query_builder_bind_kw(q, n, s.as_ptr()),
                TypedValue::Boolean(b) => c::query_builder_bind_boolean(q, n, b),
                TypedValue::Double(d) => c::query_builder_bind_double(q, n, d.into_inner()),
                TypedValue::Instant(i) => c::query_builder_bind_timestamp(q, n, i.to_micros()),
                TypedValue::String(_) => c::query_builder_bind_string(q, n, s.as_ptr()),
                TypedValue::Uuid(u) => c::query_builder_bind_uuid(q, n, u.as_bytes()),
            }
        }
        let r = match op["find"]["k"].as_str().unwrap() {
            "rel" => call(|e| c::query_builder_execute(q, e)).map(|p| QueryResults::Rel(rows(p, &mut g, &mut secs, &mut past))),
            "coll" => call(|e| c::query_builder_execute_coll(q, e)).map(|p| QueryResults::Coll(row(p, &mut g, &mut secs, &mut past))),
            "tuple" => call(|e| c::query_builder_execute_tuple(q, e)).map(|p| QueryResults::Tuple(if p.is_null() { None } else { Some(row(p, &mut g, &mut secs, &mut past)) })),
            _ => call(|e| c::query_builder_execute_scalar(q, e)).map(|p| QueryResults::Scalar(if p.is_null() { None } else { Some(value(p, &mut secs)) })),
        };
        c::query_builder_destroy(q);
        r
    };
    match r {
        Ok(o) => { let mut j = crate::query::results(&o); j["ok"] = json!(true); j["panic"] = json!(false); j["msg"] = json!(""); j["door"] = json!({"secs": secs, "stray": past, "ids": []}); j }
        Err(e) => crate::query::refused(&e),
    }
}

/// The query builder.
pub fn built(s: &mut Store, op: &J, text: &str) -> Result<QueryResults, String> {
    let schema = s.conn().current_schema();
    let mut q = QueryBuilder::new(s, text);
    for x in op["in"].as_array().unwrap() {
        let n = x["v"].as_str().unwrap();
        let t = Val::from_j(&x["x"]).typed();
        match t {
            TypedValue::Ref(i) => match schema.entid_map.get(&i) {
                Some(k) if text.len() % 2 == 0 => { q.bind_ref_from_kw(n, k.clone()).map_err(|e| e.to_string())?; }
                _ => { q.bind_ref(n, i); }
            },
            TypedValue::Long(i) => { q.bind_long(n, i); }
            TypedValue::Instant(i) => { if text.len() % 2 == 0 { q.bind_instant(n, i.to_micros()); } else { q.bind_date_time(n, i); } }
            t => { if text.len() % 3 == 0 { q.bind_type(n, t.value_type()); } q.bind_value(n, t); }
        }
    }
    let e = |e: public_traits::errors::MentatError| e.to_string();
    if text.len() % 2 == 0 { return q.execute().map(|o| o.results).map_err(e); }
    Ok(match op["find"]["k"].as_str().unwrap() {
        "rel" => QueryResults::Rel(q.execute_rel().map_err(e)?),
        "coll" => QueryResults::Coll(q.execute_coll().map_err(e)?),
        "tuple" => QueryResults::Tuple(q.execute_tuple().map_err(e)?),
        _ => QueryResults::Scalar(q.execute_scalar().map_err(e)?),
    })
}

/// What is said of how a query will be answered.
pub fn explain<Q: Queryable>(q: &Q, text: &str, ins: QueryInputs) -> &'static str {
    use mentat_transaction::query::QueryExplanation::*;
    match q.q_explain(text, ins) { Ok(KnownEmpty(_)) => "empty", Ok(KnownConstant) => "const", Ok(ExecutionPlan { .. }) => "plan", Err(_) => "error" }
}

pub fn look(s: *mut Store, e: i64, a: &str, known: Option<()>) -> J {
    let k = cs(a);
    let mut secs = vec![];
    let mut r = match call(|x| unsafe { c::store_value_for_attribute(s, e, k.as_ptr(), x) }) {
        Ok(p) => { let xs: Vec<J> = if p.is_null() { vec![] } else { vec![from_binding(&value(p, &mut secs))] }; ok(json!({"xs": xs})) }
        Err(m) => err(m),
    };
    let ids = match known { Some(()) => json!([[a, unsafe { c::store_entid_for_attribute(s, k.as_ptr()) }]]), None => json!([]) };
    r["door"] = json!({"secs": secs, "stray": false, "ids": ids});
    r
}

/// One entity after another.
pub fn pull<P: Pullable>(q: &P, es: &[i64], az: &[i64]) -> Result<J, String> {
    let mut o = vec![];
    let mut es = es.to_vec();
    es.sort();
    es.dedup();
    for e in es {
        let m = q.pull_attributes_for_entity(e, az.to_vec()).map_err(|x| x.to_string())?;
        if !m.0.is_empty() { o.push(json!({"e": e, "kvs": map_j(&m)})); }
    }
    Ok(J::Array(o))
}

// ---- the rest ---------------------------------------------------------------------------------

pub fn cache(s: *mut Store, a: &str, dir: &str) -> J {
    let k = cs(a);
    done(call(|e| unsafe { match dir {
        "f" => c::store_cache_attribute_forward(s, k.as_ptr(), e),
        "r" => c::store_cache_attribute_reverse(s, k.as_ptr(), e),
        _ => c::store_cache_attribute_bi_directional(s, k.as_ptr(), e),
    } }))
}

static SINK: Mutex<Weak<Mutex<Vec<crate::exec::Note>>>> = Mutex::new(Weak::new());

extern "C" fn noted(key: *const c_char, reports: &c::TxChangeList) {
    let to = match SINK.lock().unwrap().upgrade() { Some(x) => x, None => return };
    let key = unsafe { CStr::from_ptr(key) }.to_str().unwrap().to_string();
    let p = reports as *const c::TxChangeList as *mut c::TxChangeList;
    let rep = (0..reports.len).map(|i| unsafe {
        let t = c::tx_change_list_entry_at(p, i as i32) as *mut c::TransactionChange;
        ((*t).txid, (0..(*t).changes_len).map(|k| c::changelist_entry_at(t, k as i32)).collect())
    }).collect();
    to.lock().unwrap().push((key, rep));
}
pub fn observe(s: *mut Store, notes: &std::sync::Arc<Mutex<Vec<crate::exec::Note>>>, key: &str, az: &[i64]) {
    *SINK.lock().unwrap() = std::sync::Arc::downgrade(notes);
    let k = cs(key);
    unsafe { c::store_register_observer(s, k.as_ptr(), az.as_ptr(), az.len(), noted) }
    // One that is told nothing, and lives as long: when it is gone, all have been told.
    let n = notes.clone();
    let o = mentat::TxObserver::new(Default::default(), move |_, _| { let _ = &n; });
    unsafe { (*s).register_observer("\u{1}".into(), std::sync::Arc::new(o)); }
}
pub fn unobserve(s: *mut Store, key: &str) { let k = cs(key); unsafe { c::store_unregister_observer(s, k.as_ptr()) } }

/// Past the caches.
pub fn uncached(s: &mut Store, text: &str, ins: QueryInputs) -> Result<QueryResults, String> {
    let conn: *const mentat::conn::Conn = s.conn();
    let sq = s.sqlite_mut();
    unsafe { (*conn).q_uncached(sq, text, ins) }.map(|o| o.results).map_err(|e| e.to_string())
}

#[allow(dead_code)]
fn unused(_: PartitionMap, _: Variable) {}

// ---- which door -------------------------------------------------------------------------------

fn nul(j: &J) -> bool { match j { J::String(s) => s.contains('\0'), J::Array(a) => a.iter().any(nul), J::Object(m) => m.values().any(nul), _ => false } }

pub fn choose(g: &mut Rng, in_ip: bool, op: &mut J) {
    if op["crash"] == true || !op["fault"].is_null() || nul(op) { return; }
    let k = op["k"].as_str().unwrap().to_string();
    let d = match k.as_str() {
        "reset" | "reopen" | "begin" | "commit" | "rollback" | "drop" => if g.p(60) { "c" } else { "" },
        "tx" if op["via"] == "text" => *g.of(&["c", "c", "import", "entities", ""]),
        "tx" if op["via"] == "builder" && plain(&op["terms"]) => { op["one"] = json!(g.p(50)); if g.p(80) { "c" } else { "" } }
        "q" => {
            let plain = op["in"].as_array().unwrap().iter().all(|x| x["x"]["t"] != "kw" || x["x"]["s"].as_str().unwrap().contains('/'));
            if in_ip { *g.of(&["explain", "", ""]) } else { *g.of(&[if plain { "c" } else { "qb" }, "c", "c", "qb", "uncached", "explain", ""][if plain { 0 } else { 3 }..]) }
        }
        "look" | "cache" | "obs" | "unobs" if !in_ip && op["act"] != "dereg" => {
            let a = op["a"].as_str().unwrap_or("a/b");
            if a.contains('/') && g.p(75) { "c" } else { "" }
        }
        "pull" => if g.p(60) { "one" } else { "" },
        _ => "",
    };
    if !d.is_empty() { op["door"] = json!(d); }
}

/// A transaction the builders for C can say.
pub fn tx_op(g: &mut crate::gen::Gen, v: &crate::exec::View) -> J {
    use crate::gen::*;
    let ats: Vec<At> = Gen::attrs(v).into_iter().filter(|a| a.kw.contains('/')).collect();
    let es = Gen::ents(v);
    let mut ts = vec![];
    if ats.is_empty() { return json!({"k": "tx", "via": "builder", "terms": []}); }
    let same = g.rng.p(60);
    let tid = es.is_empty() || g.rng.p(40);
    let e0 = if tid { tmp(*g.rng.of(&["t1", "t2", "x"])) } else { val(&long(*g.rng.of(&es))) };
    for _ in 0..1 + g.rng.n(4) {
        let a = g.rng.of(&ats).clone();
        let e = if same || tid { e0.clone() } else { val(&long(*g.rng.of(&es))) };
        let mut x = g.tval(&a, v);
        if a.vt == "ref" { if es.is_empty() { continue; } x = rf(*g.rng.of(&es)); }
        // now and then one that holds
        let held: Vec<Val> = v.db.facts.iter().filter(|f| f.1 == a.e && (e["v"]["t"] == "str" || Val::from_j(&e["v"]).int() == f.0)).map(|f| f.2.clone()).collect();
        if !held.is_empty() && g.rng.p(40) { x = g.rng.of(&held).clone(); }
        if x.t == "kw" && !x.s.contains('/') { continue; }
        ts.push(if g.rng.p(72) { add(e, ap(&a.kw), val(&x)) } else { ret(e, ap(&a.kw), val(&x)) });
    }
    json!({"k": "tx", "via": "builder", "terms": ts})
}
