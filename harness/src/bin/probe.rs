use mentat::*;
use std::io::{BufRead};
use mentat::{CacheDirection, InProgress};

fn sh<T: std::fmt::Debug, E: std::fmt::Display>(r: std::result::Result<T,E>) { match r { Ok(x) => println!("  Ok {:?}", x), Err(e) => println!("  Err {}", e) } }
fn dump(c: &rusqlite::Connection, what: &str) {
    let sql = match what {
        "datoms" => "SELECT e,a,CAST(v AS TEXT),tx,value_type_tag FROM datoms WHERE tx>268435456 or e>40 ORDER BY e,a,v",
        "log" => "SELECT e,a,CAST(v AS TEXT),tx,value_type_tag*10+added FROM transactions WHERE tx>268435456 ORDER BY tx,e,a,v,added",
        "parts" => "SELECT * FROM parts",
        "d" => "SELECT e,a,CAST(v AS TEXT),value_type_tag FROM datoms WHERE e>40 AND a<>3 AND e < 268435456 ORDER BY e,a,v", "l" => "SELECT tx,e,a,CAST(v AS TEXT),added FROM transactions WHERE tx>268435456 and a<>3 ORDER BY tx,e,a,v,added", _ => what,
    };
    let mut st = match c.prepare(sql) { Ok(s) => s, Err(e) => { println!("ERR {}", e); return; } };
    let n = st.column_count();
    let mut rows = st.query(rusqlite::params![]).unwrap();
    while let Some(r) = rows.next().unwrap() {
        let mut o = vec![];
        for i in 0..n { let v: rusqlite::types::Value = r.get(i).unwrap(); o.push(format!("{:?}", v)); }
        println!("   [{}]", o.join(" ").replace("Integer(","").replace("Text(","").replace(")",""));
    }
}
fn kwp(s: &str) -> Keyword { let s = s.trim_start_matches(':'); let mut p = s.splitn(2, '/'); Keyword::namespaced(p.next().unwrap(), p.next().unwrap()) }

fn ip_loop(mut ip: InProgress, lines: &mut dyn Iterator<Item = String>) {
    while let Some(l) = lines.next() {
        let l = l.trim().to_string(); if l.is_empty() || l.starts_with('#') { continue; }
        println!("  ip> {}", l);
        let (c, a) = match l.find(' ') { Some(i) => (l[..i].to_string(), l[i+1..].to_string()), None => (l.clone(), String::new()) };
        match c.as_str() {
            "tx" => sh(ip.transact(a.as_str())),
            "commit" => { println!("  {:?}", ip.commit()); return; }
            "rollback" => { println!("  {:?}", ip.rollback()); return; }
            "drop" => return,
            "sp" => println!("{:?}", ip.savepoint(&a)),
            "rb" => println!("{:?}", ip.rollback_savepoint(&a)),
            "q" => println!("  {:?}", ip.q_once(&a, None).map(|x| x.results)),
            "d"|"l"|"datoms"|"log"|"parts" => dump(&ip.transaction, &c),
            "lookup" => { let mut p = a.split(' '); let e: i64 = p.next().unwrap().parse().unwrap(); let k = kwp(p.next().unwrap());
                println!("  {:?} {:?}", ip.lookup_value_for_attribute(e, &k), ip.lookup_values_for_attribute(e, &k)); }
            _ => println!("??"),
        }
    }
}

fn main() {
    let mut path = String::new();
    let mut store = Store::open("").unwrap();
    let stdin = std::io::stdin();
    let ls: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
    let mut lines = ls.into_iter();
    while let Some(l) = lines.next() {
        let l = l.trim().to_string(); if l.is_empty() || l.starts_with('#') { continue; }
        println!("> {}", l);
        let (c, a) = match l.find(' ') { Some(i) => (l[..i].to_string(), l[i+1..].to_string()), None => (l.clone(), String::new()) };
        match c.as_str() {
            "open" => { path = a.clone(); let _ = std::fs::remove_file(&path); store = Store::open(&path).unwrap(); }
            "reset" => { store = Store::open("").unwrap(); }
            "reopen" => { drop(std::mem::replace(&mut store, Store::open("").unwrap())); match Store::open(&path) { Ok(s) => store = s, Err(e) => println!("REOPEN FAIL {:?}", e) } }
            "tx" => { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { sh(store.transact(a.as_str())); })); if r.is_err() { println!("PANIC"); } }
            "begin" => { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { match store.begin_transaction() { Ok(ip) => ip_loop(ip, &mut lines), Err(e) => println!("{:?}", e) } })); if r.is_err() { println!("PANIC"); } }
            "q" => println!("  {:?}", store.q_once(&a, None).map(|x| x.results)),
            "ex" => match store.q_explain(&a, None) { Ok(mentat::QueryExplanation::ExecutionPlan { query, .. }) => println!("  {}", query.sql), Ok(_) => println!("  other"), Err(e) => println!("  {}", e) },
            "qu" => { println!("  {:?}", store.begin_read().unwrap().q_once(&a, None).map(|x| x.results)); }
            "d"|"l"|"datoms"|"log"|"parts" => dump(store.sqlite_mut(), &c),
            "sql" => dump(store.sqlite_mut(), &a),
            "cache" => { let mut p = a.split(' '); let k = kwp(p.next().unwrap()); let d = match p.next().unwrap() { "f" => CacheDirection::Forward, "r" => CacheDirection::Reverse, _ => CacheDirection::Both }; println!("  {:?}", store.cache(&k, d)); }
            "lookup" => { let mut p = a.split(' '); let e: i64 = p.next().unwrap().parse().unwrap(); let k = kwp(p.next().unwrap());
                println!("  {:?} {:?}", store.lookup_value_for_attribute(e, &k), store.lookup_values_for_attribute(e, &k)); }
            "attr" => { let s = store.conn().current_schema(); println!("  {:?}", s.attribute_for_ident(&kwp(&a))); }
            "lasttx" => println!("  {}", store.last_tx_id()),
            "sqlexec" => println!("  {:?}", store.sqlite_mut().execute_batch(&a)),
            _ => println!("??"),
        }
    }
}
