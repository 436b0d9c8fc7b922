//! Executes operations (JSON) against the real store and records what happened.
use crate::edn_text;
use crate::obs::*;
use crate::val::*;
use mentat::{CacheAction, CacheDirection, InProgress, Pullable, Queryable, Store};
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat_core::TxReport;
use edn::entities::{AttributePlace, EntidOrIdent, EntityPlace, ValuePlace, LookupRef};
use core_traits::TypedValue;
use serde_json::{json, Value as J};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

/// What a generator may look at.
#[derive(Clone, Default)]
pub struct View {
    pub db: Db,
    pub mem: Mem,
    pub in_ip: bool,
    pub file: bool,
    pub obs: Vec<String>,
    pub last: J,
    pub last_op: J,
}

pub trait Source {
    /// `None` ends the innermost level (an open transaction is dropped, the trace is ended).
    fn next(&mut self, v: &View) -> Option<J>;
}

pub type Note = (String, Vec<(i64, Vec<i64>)>);

pub struct Sess<'w> {
    pub out: &'w mut dyn Write,
    pub view: View,
    pub outside: Db,
    pub omem: Mem,
    pub first: bool,
    pub count: usize,
    pub store: Option<Store>,
    pub path: Option<String>,
    pub second: Option<rusqlite::Connection>,
    pub notes: Arc<Mutex<Vec<Note>>>,
    pub dir: String,
    pub nfile: usize,
    pub dead: bool,
    pub images: Arc<Mutex<Vec<String>>>,
    pub vars: i32,
    pub reps: crate::ext::Reps,
    pub cur: i64,
    pub remote: crate::ext::Remote,
}

fn short(s: String) -> String {
    let mut o: String = s.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').collect();
    o.truncate(160);
    o
}

pub fn ok(extra: J) -> J {
    let mut r = json!({"ok": true, "panic": false, "msg": ""});
    for (k, v) in extra.as_object().unwrap() { r[k] = v.clone(); }
    r
}
pub fn err(m: String) -> J { json!({"ok": false, "panic": false, "msg": short(m)}) }

pub fn guard<F: FnOnce() -> J>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"ok": false, "panic": true, "cls": "", "msg": short(m)})
        }
    }
}

fn rep_j(r: &TxReport) -> J {
    use edn::ToMicros;
    json!({"txid": r.tx_id, "inst": inst(r.tx_instant.to_micros()).j(),
        "tids": r.tempids.iter().map(|(k, e)| json!([k, e])).collect::<Vec<_>>()})
}

pub fn dir_of(s: &str) -> CacheDirection {
    match s { "f" => CacheDirection::Forward, "r" => CacheDirection::Reverse, _ => CacheDirection::Both }
}

// ---- the builder path -------------------------------------------------------------------------

fn b_ent(v: &Val) -> EntidOrIdent {
    if v.t == "kw" { EntidOrIdent::Ident(kwp(&v.s)) } else { EntidOrIdent::Entid(v.int()) }
}
fn b_attr(a: &J) -> AttributePlace {
    let k = a["kw"].as_str().unwrap();
    if k.is_empty() { AttributePlace::Entid(EntidOrIdent::Entid(a["n"].as_i64().unwrap())) }
    else if a["rev"].as_bool().unwrap_or(false) {
        let i = k.find('/').unwrap();
        AttributePlace::Entid(EntidOrIdent::Ident(kwp(&format!("{}/_{}", &k[..i], &k[i + 1..]))))
    } else { AttributePlace::Entid(EntidOrIdent::Ident(kwp(k))) }
}
fn b_lu(p: &J) -> LookupRef<TypedValue> { LookupRef { a: b_attr(&p["a"]), v: Val::from_j(&p["v"]).typed() } }
fn b_e(b: &mut TermBuilder, p: &J) -> EntityPlace<TypedValue> {
    match p["k"].as_str().unwrap() {
        "val" => { let v = Val::from_j(&p["v"]); if v.t == "str" { EntityPlace::TempId(b.named_tempid(v.s)) } else { EntityPlace::Entid(b_ent(&v)) } }
        "lu" => EntityPlace::LookupRef(b_lu(p)),
        "tx" => EntityPlace::TxFunction(TermBuilder::tx_function("transaction-tx")),
        x => panic!("builder e {}", x),
    }
}
fn b_v(b: &mut TermBuilder, p: &J) -> ValuePlace<TypedValue> {
    match p["k"].as_str().unwrap() {
        "val" => ValuePlace::Atom(Val::from_j(&p["v"]).typed()),
        "ent" => { let v = Val::from_j(&p["v"]); if v.t == "str" { ValuePlace::TempId(b.named_tempid(v.s)) } else { ValuePlace::Entid(b_ent(&v)) } }
        "lu" => ValuePlace::LookupRef(b_lu(p)),
        "tx" => ValuePlace::TxFunction(TermBuilder::tx_function("transaction-tx")),
        x => panic!("builder v {}", x),
    }
}
fn build(terms: &J) -> Result<TermBuilder, String> {
    let mut b = TermBuilder::new();
    for t in terms.as_array().unwrap() {
        let e = b_e(&mut b, &t["e"]);
        let v = b_v(&mut b, &t["v"]);
        let a = b_attr(&t["a"]);
        let r = if t["k"] == "add" { BuildTerms::add(&mut b, e, a, v) } else { BuildTerms::retract(&mut b, e, a, v) };
        r.map_err(|e| format!("{}", e))?;
    }
    Ok(b)
}

fn ip_tx(ip: &mut InProgress, op: &J, dir: &str) -> J {
    let r = match op["via"].as_str().unwrap_or("text") {
        "text" => {
            let t = crate::layout::lay(op, edn_text::terms(&op["terms"]));
            match op["door"].as_str().unwrap_or("") {
                "c" => return crate::doors::ip_tx(ip, &t),
                "import" => crate::doors::import(ip, dir, &t),
                "entities" => crate::doors::entities(ip, &t),
                _ => ip.transact(t).map_err(|e| format!("{}", e)),
            }
        }
        "builder" => build(&op["terms"]).and_then(|b| ip.transact_builder(b).map_err(|e| format!("{}", e))),
        x => panic!("via {}", x),
    };
    match r { Ok(rep) => ok(rep_j(&rep)), Err(e) => err(e) }
}

pub fn read_op<Q: Queryable + Pullable>(q: &Q, op: &J, db: &Db) -> Option<J> {
    Some(match op["k"].as_str().unwrap() {
        "look" => {
            let a = kwp(op["a"].as_str().unwrap());
            let e = op["e"].as_i64().unwrap();
            let one = guard(|| match q.lookup_value_for_attribute(e, &a) {
                Ok(x) => ok(json!({"xs": x.iter().map(|t| from_typed(t).j()).collect::<Vec<_>>()})), Err(x) => err(x.to_string()) });
            let all = guard(|| match q.lookup_values_for_attribute(e, &a) {
                Ok(x) => ok(json!({"xs": x.iter().map(|t| from_typed(t).j()).collect::<Vec<_>>()})), Err(x) => err(x.to_string()) });
            let p = one["panic"] == true || all["panic"] == true;
            json!({"ok": true, "panic": p, "msg": "", "one": one, "all": all})
        }
        "q" => {
            finish_q(op, db, crate::query::run(q, op))
        }
        "pull" => {
            let es: Vec<i64> = op["es"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let az: Vec<i64> = op["as"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            if crate::doors::is(op, "one") {
                return Some(guard(|| match crate::doors::pull(q, &es, &az) { Ok(rows) => ok(json!({"rows": rows})), Err(e) => err(e) }));
            }
            guard(|| match q.pull_attributes_for_entities(es, az) {
                Ok(m) => ok(json!({"rows": m.iter().map(|(e, s)| json!({"e": e, "kvs": map_j(s)})).collect::<Vec<_>>()})),
                Err(e) => err(e.to_string()),
            })
        }
        _ => return None,
    })
}

/// What the specification needs to know of the values.
fn finish_q(op: &J, db: &Db, mut r: J) -> J {
            if op["rk"] == true {
                let mut vs: Vec<Val> = db.facts.iter().map(|f| f.2.clone()).collect();
                if op["lg"] == true { vs.extend(db.log.iter().map(|l| l.3.clone())); }
                crate::query::consts(op, &mut vs);
                r["rank"] = crate::query::ranks(vs);
            }
            if op["ft"] == true {
                let ss: std::collections::BTreeSet<&String> = db.facts.iter().filter(|f| f.2.t == "str").map(|f| &f.2.s).collect();
                r["words"] = J::Array(ss.into_iter().map(|s| json!([s, crate::query::words(s)])).collect());
            }
            r
}

impl<'w> Sess<'w> {
    pub fn new(out: &'w mut dyn Write, dir: &str) -> Sess<'w> {
        Sess { out, view: View::default(), outside: Db::default(), omem: Mem::default(), first: true, count: 0, store: None, path: None, second: None,
            notes: Default::default(), dir: dir.into(), nfile: 0, dead: false, images: Default::default(), vars: 0, reps: Default::default(), cur: 0, remote: Default::default() }
    }

    /// Record one event: the operation, its result, and how the observed state changed.
    pub fn emit(&mut self, op: &J, r: J, db: Db, mem: Mem) {
        let omem = match (&self.store, self.view.in_ip) { (Some(s), false) => { let _ = s; mem.clone() } _ => self.omem.clone() };
        let mut ev = json!({"i": self.count, "op": op, "r": r, "ip": self.view.in_ip,
            "d": db_delta(&self.view.db, &db, self.first), "m": mem_delta(&self.view.mem, &mem, self.first)});
        let out = match &self.second {
            Some(c) => { let o = dump(c); let d = json!([db_delta(&self.outside, &o, self.first)]); self.outside = o; d }
            None => json!([]),
        };
        ev["o"] = out;
        self.omem = omem;
        writeln!(self.out, "{}", ev).unwrap();
        self.count += 1;
        self.first = false;
        self.view.db = db;
        self.view.mem = mem;
        self.view.last = ev["r"].clone();
        self.view.last_op = op.clone();
    }

    fn store_state(&mut self) -> (Db, Mem) {
        let s = self.store.as_mut().unwrap();
        let db = dump(s.sqlite_mut());
        let sch = s.conn().current_schema();
        // The partition map is visible only in a transaction.
        let (pm, read) = { let ip = s.begin_read().unwrap(); (ip.in_progress.partition_map.clone(), ip.last_tx_id()) };
        let mut m = mem(&sch, &pm);
        m.last = s.last_tx_id();
        if read != m.last { m.odd.push("last transaction, when reading".into()); }
        (db, m)
    }

    pub fn close_store(&mut self) -> Vec<Note> {
        if let Some(s) = self.store.take() { drop(s); }
        // Every observer's closure holds `notes`; once the executor thread is gone, all notifications
        // have been delivered.
        let t0 = std::time::Instant::now();
        while Arc::strong_count(&self.notes) > 1 {
            std::thread::sleep(std::time::Duration::from_micros(200));
            if t0.elapsed().as_secs() > 20 { break; }
        }
        std::mem::take(&mut *self.notes.lock().unwrap())
    }

    fn notes_j(ns: Vec<Note>) -> J {
        let mut keys: Vec<String> = ns.iter().map(|n| n.0.clone()).collect();
        keys.sort();
        keys.dedup();
        J::Array(keys.into_iter().map(|k| {
            let seq: Vec<J> = ns.iter().filter(|n| n.0 == k).map(|n| J::Array(n.1.iter().map(|(t, a)| json!([t, a])).collect())).collect();
            json!([k, seq])
        }).collect())
    }

    pub fn rm_files(&mut self) {
        self.second = None;
        if let Some(p) = &self.path {
            for x in &["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", p, x)); }
        }
        self.path = None;
    }

    pub fn reset(&mut self, op: &J) {
        let notes = self.close_store();
        drop(notes);
        self.rm_files();
        self.dead = false;
        self.first = true;
        self.view = View::default();
        self.outside = Db::default();
        let file = op["file"].as_bool().unwrap_or(false);
        self.view.file = file;
        if file {
            self.nfile += 1;
            let p = format!("{}/s{}.db", self.dir, self.nfile);
            self.store = Some(Store::open(&p).unwrap());
            self.second = Some(rusqlite::Connection::open_with_flags(&p, rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).unwrap());
            self.path = Some(p);
        } else {
            self.store = Some(if op["door"] == "c" { crate::doors::open("").unwrap() } else { Store::open("").unwrap() });
        }
        self.reps.clear();
        self.cur = 0;
        self.remote = Default::default();
        self.vars = op["vars"].as_i64().unwrap_or(0) as i32;
        self.limit();
        let (db, m) = self.store_state();
        self.emit(op, ok(json!({})), db, m);
    }

    /// Bound the number of variables of a statement, so that transactions are written in many chunks.
    fn limit(&mut self) {
        if self.vars > 0 {
            if let Some(s) = self.store.as_mut() { s.sqlite_mut().set_limit(rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER, self.vars); }
        }
    }

    fn register(&mut self, op: &J) -> J {
        let key = op["key"].as_str().unwrap().to_string();
        let set: mentat::AttributeSet = op["as"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        if op["door"] == "c" {
            let az: Vec<i64> = set.iter().cloned().collect();
            crate::doors::observe(self.store.as_mut().unwrap(), &self.notes, &key, &az);
            return ok(json!({}));
        }
        let notes = self.notes.clone();
        let o = mentat::TxObserver::new(set, move |k, m| {
            let rep = m.iter().map(|(t, a)| (**t, a.iter().cloned().collect())).collect();
            notes.lock().unwrap().push((k.to_string(), rep));
        });
        self.store.as_mut().unwrap().register_observer(key, Arc::new(o));
        ok(json!({}))
    }

    /// Images of the database files as a crash would leave them.
    fn snap(path: &str, tag: &str) -> Option<String> {
        let to = format!("{}.img{}", path, tag);
        for x in &["", "-wal"] {
            let _ = std::fs::remove_file(format!("{}{}", to, x));
            if std::path::Path::new(&format!("{}{}", path, x)).exists() {
                std::fs::copy(format!("{}{}", path, x), format!("{}{}", to, x)).ok()?;
            }
        }
        Some(to)
    }
    fn open_image(p: &str, pre: &Db) -> J {
        let r = guard(|| match Store::open(p) {
            Ok(mut s) => { let d = dump(s.sqlite_mut()); let mut j = db_delta(pre, &d, false); j["ok"] = json!(true); j }
            Err(e) => { let mut j = db_delta(pre, pre, false); j["ok"] = json!(false); j["msg"] = json!(short(e.to_string())); j }
        });
        for x in &["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", p, x)); }
        r
    }

    /// Transact with a crash image taken at row changes, just before the commit, and of prefixes of
    /// what the commit appended to the write-ahead log.
    fn crash_tx(&mut self, op: &J) -> J {
        let path = self.path.clone().unwrap();
        let pre = self.view.db.clone();
        let wal = format!("{}-wal", path);
        let wal0 = std::fs::metadata(&wal).map(|m| m.len()).unwrap_or(0);
        let imgs: Arc<Mutex<Vec<(String, String)>>> = Default::default();
        let stride = op["stride"].as_u64().unwrap_or(5);
        let r;
        {
            let s = self.store.as_mut().unwrap();
            let (im, p) = (imgs.clone(), path.clone());
            let mut n = 0u64;
            let (im2, p2) = (imgs.clone(), path.clone());
            s.sqlite_mut().update_hook(Some(move |_a: rusqlite::Action, _d: &str, _t: &str, _r| {
                n += 1;
                if n % stride == 0 && n / stride <= 12 { if let Some(f) = Sess::snap(&p, &format!("u{}", n)) { im.lock().unwrap().push(("row".into(), f)); } }
            }));
            s.sqlite_mut().commit_hook(Some(move || {
                if let Some(f) = Sess::snap(&p2, "c") { im2.lock().unwrap().push(("precommit".into(), f)); }
                false
            }));
            r = guard(|| {
                let text = edn_text::terms(&op["terms"]);
                match s.transact(text.as_str()) { Ok(rep) => ok(rep_j(&rep)), Err(e) => err(e.to_string()) }
            });
            s.sqlite_mut().update_hook(None::<fn(rusqlite::Action, &str, &str, i64)>);
            s.sqlite_mut().commit_hook(None::<fn() -> bool>);
        }
        if let Some(f) = Sess::snap(&path, "p") { imgs.lock().unwrap().push(("done".into(), f)); }
        // prefixes of the log
        let wal1 = std::fs::metadata(&wal).map(|m| m.len()).unwrap_or(0);
        if wal1 > wal0 {
            for i in 0..4u64 {
                let len = wal0 + (wal1 - wal0) * (2 * i + 1) / 8;
                // The database file as it was before the commit: a checkpoint writes to it only once
                // the log is safely stored.
                let base = format!("{}.imgc", path);
                if !imgs.lock().unwrap().iter().any(|x| x.1 == base) { break; }
                if let Some(f) = Sess::snap(&path, &format!("w{}", i)) {
                    let _ = std::fs::copy(&base, &f);
                    if let Ok(h) = std::fs::OpenOptions::new().write(true).open(format!("{}-wal", f)) { let _ = h.set_len(len); }
                    imgs.lock().unwrap().push(("torn".into(), f));
                }
            }
        }
        let list = imgs.lock().unwrap().clone();
        let mut r = r;
        r["imgs"] = J::Array(list.iter().map(|(w, f)| { let mut j = Sess::open_image(f, &pre); j["w"] = json!(w); j }).collect());
        r
    }

    /// Run one source to its end: a sequence of traces, each begun by "reset".
    pub fn run(&mut self, src: &mut dyn Source) {
        while let Some(op) = { let v = self.view.clone(); src.next(&v) } {
            let k = op["k"].as_str().unwrap().to_string();
            if k == "reset" { self.reset(&op); continue; }
            if k == "end" {
                let (db, m) = if self.dead { (self.view.db.clone(), self.view.mem.clone()) } else { self.store_state() };
                let ns = self.close_store();
                self.emit(&op, ok(json!({"notes": Sess::notes_j(ns)})), db, m);
                self.rm_files();
                continue;
            }
            if self.dead || self.store.is_none() { continue; }
            let mut image_ip = None;
            crate::fault::arm(self.store.as_mut().unwrap().sqlite_mut(), &op);
            let r = match k.as_str() {
                "tx" => {
                    if op["crash"] == true { self.crash_tx(&op) }
                    else {
                        let dir = self.dir.clone();
                        let s = self.store.as_mut().unwrap();
                        guard(|| {
                            if op["door"] == "c" { if op["via"] == "builder" { crate::doors::build(s, &op) } else { crate::doors::tx(s, &crate::layout::lay(&op, edn_text::terms(&op["terms"]))) } }
                            else if op["via"] == "builder" || op["door"].is_string() {
                                match s.begin_transaction() {
                                    Ok(mut ip) => { let r = ip_tx(&mut ip, &op, &dir); if r["ok"] == true { if let Err(e) = ip.commit() { return err(e.to_string()); } } r }
                                    Err(e) => err(e.to_string()),
                                }
                            } else {
                                match s.transact(crate::layout::lay(&op, edn_text::terms(&op["terms"])).as_str()) { Ok(rep) => ok(rep_j(&rep)), Err(e) => err(e.to_string()) }
                            }
                        })
                    }
                }
                "begin" => { image_ip = Some(()); json!({}) }
                "reopen" => {
                    let p = self.path.clone();
                    match p {
                        Some(p) => {
                            let ns = self.close_store();
                            let opened = || if op["door"] == "c" { crate::doors::open(&p) } else { Store::open(&p).map_err(|e| e.to_string()) };
                            let r = guard(|| match opened() { Ok(s) => { self.store = Some(s); ok(json!({"notes": Sess::notes_j(ns)})) } Err(e) => err(e) });
                            if self.store.is_none() {
                                self.dead = true;
                                let (d, m) = (self.view.db.clone(), self.view.mem.clone());
                                self.emit(&op, r, d, m);
                                continue;
                            }
                            self.limit();
                            r
                        }
                        None => continue,
                    }
                }
                "obs" => self.register(&op),
                "unobs" if op["door"] == "c" => { crate::doors::unobserve(self.store.as_mut().unwrap(), op["key"].as_str().unwrap()); ok(json!({})) }
                "cache" if op["door"] == "c" => crate::doors::cache(self.store.as_mut().unwrap(), op["a"].as_str().unwrap(), op["dir"].as_str().unwrap()),
                "unobs" => { self.store.as_mut().unwrap().unregister_observer(op["key"].as_str().unwrap()); ok(json!({})) }
                "cache" => {
                    let s = self.store.as_mut().unwrap();
                    guard(|| {
                        let a = kwp(op["a"].as_str().unwrap());
                        let d = dir_of(op["dir"].as_str().unwrap());
                        let r = if op["act"] == "dereg" {
                            // The store offers no way to deregister; a transaction does.
                            s.begin_transaction().and_then(|mut ip| { ip.cache(&a, d, CacheAction::Deregister)?; ip.commit() })
                        } else { s.cache(&a, d) };
                        match r { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }
                    })
                }
                "look" | "q" | "pull" => {
                    let db = self.view.db.clone();
                    let s = self.store.as_mut().unwrap();
                    match op["how"].as_str().unwrap_or("store") {
                        "read" => guard(|| match s.begin_read() { Ok(rd) => read_op(&rd, &op, &db).unwrap(), Err(e) => err(e.to_string()) }),
                        _ => match (k.as_str(), op["door"].as_str().unwrap_or("")) {
                            ("q", d @ "c") | ("q", d @ "qb") | ("q", d @ "uncached") => {
                                let t = crate::query::text(&op);
                                let mut r = match d {
                                    "c" => { let sch = s.conn().current_schema(); crate::doors::query(s, &op, &t, &|e| sch.entid_map.get(&e).map(|k| k.to_string())) }
                                    "qb" => guard(|| crate::query::answered(crate::doors::built(s, &op, &t))),
                                    _ => guard(|| crate::query::answered(crate::doors::uncached(s, &t, crate::query::inputs(&op)))),
                                };
                                r["text"] = json!(t);
                                finish_q(&op, &db, r)
                            }
                            ("look", "c") => {
                                let mut r = read_op(&*s, &op, &db).unwrap();
                                let a = op["a"].as_str().unwrap();
                                let known = self.view.mem.ids.iter().find(|x| x.0 == a).map(|_| ());
                                let mut one = crate::doors::look(s, op["e"].as_i64().unwrap(), a, known);
                                r["door"] = one["door"].take();
                                one.as_object_mut().unwrap().remove("door");
                                r["one"] = one;
                                r
                            }
                            _ => read_op(&*s, &op, &db).unwrap(),
                        },
                    }
                }
                "edn" => crate::notation::read(&op),
                "text" => crate::notation::run_text(self.store.as_mut().unwrap(), &op),
                "vocab" | "vocabs" => {
                    let s = self.store.as_mut().unwrap();
                    guard(|| match s.begin_transaction() {
                        Ok(mut ip) => if k == "vocab" { let r = crate::vocab::ensure(&mut ip, &op); if r["ok"] == true { if let Err(e) = ip.commit() { return err(e.to_string()); } } r } else { crate::vocab::read(&ip) },
                        Err(e) => err(e.to_string()),
                    })
                }
                _ => match crate::ext::store_op(self, &op) { Some(r) => r, None => panic!("op {}", k) },
            };
            if let Some(s) = self.store.as_mut() { crate::fault::disarm(s.sqlite_mut(), &op); }
            if image_ip.is_some() { self.run_ip(&op, src); continue; }
            if r["panic"] == true { self.dead = true; let (d, m) = (self.view.db.clone(), self.view.mem.clone()); self.emit(&op, r, d, m); continue; }
            let (db, m) = self.store_state();
            self.emit(&op, r, db, m);
        }
    }

    fn run_ip(&mut self, op: &J, src: &mut dyn Source) {
        let mut store = self.store.take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let begun = if op["door"] == "c" { crate::doors::begin(&mut store) } else { store.begin_transaction().map_err(|e| e.to_string()) };
            let mut ip = match begun {
                Ok(ip) => ip,
                Err(e) => { let (d, m) = (self.view.db.clone(), self.view.mem.clone()); self.emit(op, err(e), d, m); return None; }
            };
            self.view.in_ip = true;
            let (d, m) = (dump(&ip.transaction), ip_mem(&ip));
            self.emit(op, ok(json!({})), d, m);
            loop {
                let op = match { let v = self.view.clone(); src.next(&v) } { Some(o) => o, None => json!({"k": "drop"}) };
                let k = op["k"].as_str().unwrap().to_string();
                crate::fault::arm(&ip.transaction, &op);
                let mut r = match k.as_str() {
                    "commit" if op["door"] == "c" => { let r = crate::doors::commit(ip); return Some((op, r)); }
                    "rollback" if op["door"] == "c" => { let r = crate::doors::rollback(ip); return Some((op, r)); }
                    "drop" if op["door"] == "c" => { crate::doors::discard(ip); return Some((op, ok(json!({})))); }
                    "commit" => { let r = guard(|| match ip.commit() { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }); return Some((op, r)); }
                    "rollback" => { let r = guard(|| match ip.rollback() { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }); return Some((op, r)); }
                    "drop" => { drop(ip); return Some((op, ok(json!({})))); }
                    "tx" if op["door"] == "c" && op["via"] == "builder" => { let (i, r) = crate::doors::ip_build(ip, &op); ip = i; r }
                    "tx" => guard(|| ip_tx(&mut ip, &op, &self.dir)),
                    "vocab" => crate::vocab::ensure(&mut ip, &op),
                    "vocabs" => crate::vocab::read(&ip),
                    "sp" => guard(|| match ip.savepoint(op["name"].as_str().unwrap()) { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }),
                    "rb" => guard(|| match ip.rollback_savepoint(op["name"].as_str().unwrap()) { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }),
                    "rel" => guard(|| match ip.release_savepoint(op["name"].as_str().unwrap()) { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }),
                    "cache" => guard(|| {
                        let act = if op["act"] == "dereg" { CacheAction::Deregister } else { CacheAction::Register };
                        match ip.cache(&kwp(op["a"].as_str().unwrap()), dir_of(op["dir"].as_str().unwrap()), act) { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }
                    }),
                    "use" => { ip.use_caching(op["on"] == true); ok(json!({})) }
                    "look" | "q" | "pull" => read_op(&ip, &op, &self.view.db).unwrap(),
                    x => panic!("ip op {}", x),
                };
                crate::fault::disarm(&ip.transaction, &op);
                // The engine has rolled back the whole transaction.
                if ip.transaction.is_autocommit() { r["gone"] = json!(true); }
                if r["panic"] == true {
                    let (d, m) = (self.view.db.clone(), self.view.mem.clone());
                    self.dead = true;
                    self.emit(&op, r, d, m);
                    return None;
                }
                let (d, m) = (dump(&ip.transaction), ip_mem(&ip));
                self.emit(&op, r, d, m);
            }
        }));
        self.view.in_ip = false;
        self.store = Some(store);
        match r {
            Ok(Some((op, r))) => {
                crate::fault::disarm(self.store.as_mut().unwrap().sqlite_mut(), &op);
                if r["panic"] == true { self.dead = true; let (d, m) = (self.view.db.clone(), self.view.mem.clone()); self.emit(&op, r, d, m); return; }
                match catch_unwind(AssertUnwindSafe(|| self.store_state())) {
                    Ok((d, m)) => self.emit(&op, r, d, m),
                    Err(_) => { self.dead = true; let (d, m) = (self.view.db.clone(), self.view.mem.clone()); self.emit(&op, json!({"ok": false, "panic": true, "msg": "store unusable"}), d, m); }
                }
            }
            Ok(None) => {}
            Err(_) => { self.dead = true; }
        }
    }
}
