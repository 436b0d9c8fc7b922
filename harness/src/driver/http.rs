//! The remote log served over HTTP, on the loopback interface, for as long as one synchronisation takes.
use crate::ext::Remote;
use mentat_tolstoy::{GlobalTransactionLog, TxPart};
use serde_json::{json, Value as J};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use uuid::Uuid;

pub const USER: &str = "316ea470-ce35-4adf-9c61-e0de6e289c59";

/// The answer to a request: its status and body. `None`: the connection is closed without an answer.
type Answer = Option<(&'static str, String)>;

fn route(r: &mut Remote, method: &str, path: &str, body: &str) -> (bool, Answer) {
    let rest = match path.strip_prefix(&format!("/api/{}/", USER)) { Some(x) => x, None => return (true, Some(("404 Not Found", "{}".into()))) };
    let parts: Vec<&str> = rest.split('/').collect();
    let id = parts.get(1).and_then(|u| Uuid::parse_str(u).ok());
    let b: J = serde_json::from_str(body).unwrap_or(J::Null);
    let bad = (true, Some(("400 Bad Request", "{}".to_string())));
    let uuid = |j: &J| j.as_str().and_then(|u| Uuid::parse_str(u).ok());
    let got = |x: mentat::errors::Result<J>| match x { Ok(j) => (true, Some(("200 OK", j.to_string()))), Err(_) => (false, None) };
    let put = |x: mentat::errors::Result<()>, s: &'static str| match x { Ok(()) => (true, Some((s, String::new()))), Err(_) => (false, None) };
    match (method, parts[0], id) {
        ("GET", "head", None) => got(r.head().map(|h| json!({"head": h.to_string()}))),
        ("PUT", "head", None) => match uuid(&b["head"]) { Some(u) => put(r.set_head(&u), "204 No Content"), None => bad },
        ("GET", p, None) if p.starts_with("transactions?from=") => match Uuid::parse_str(&p[18..]) {
            Ok(from) => got(r.after(&from).map(|us| json!({"limit": 1000, "from": from.to_string(), "transactions": us.iter().map(|u| u.to_string()).collect::<Vec<_>>()}))),
            Err(_) => bad,
        },
        ("GET", "transactions", Some(u)) => got(r.transaction(&u).map(|(parent, chunks)| json!({"parent": parent.to_string(), "id": u.to_string(), "seq": 0, "chunks": chunks.iter().map(|c| c.to_string()).collect::<Vec<_>>()}))),
        ("PUT", "transactions", Some(u)) => match (uuid(&b["parent"]), b["chunks"].as_array()) {
            (Some(parent), Some(cs)) => put(r.put_transaction(&u, &parent, &cs.iter().map(|c| uuid(c).unwrap()).collect::<Vec<_>>()), "201 Created"),
            _ => bad,
        },
        ("GET", "chunks", Some(u)) => got(r.chunk(&u).map(|p| serde_json::to_value(&p).unwrap())),
        ("PUT", "chunks", Some(u)) => match serde_json::from_str::<TxPart>(body) { Ok(p) => put(r.put_chunk(&u, &p), "201 Created"), Err(_) => bad },
        _ => bad,
    }
}

fn handle(r: &Mutex<&mut Remote>, how: i64, c: TcpStream) -> std::io::Result<()> {
    let mut rd = BufReader::new(c.try_clone()?);
    let mut line = String::new();
    rd.read_line(&mut line)?;
    let mut w = line.split_whitespace();
    let (method, path) = match (w.next(), w.next()) { (Some(m), Some(p)) => (m.to_string(), p.to_string()), _ => return Ok(()) };
    let mut len = 0usize;
    loop {
        let mut h = String::new();
        rd.read_line(&mut h)?;
        if h.trim().is_empty() { break; }
        let l = h.to_ascii_lowercase();
        if l.starts_with("content-length:") { len = l[15..].trim().parse().unwrap_or(0); }
    }
    let mut body = vec![0; len];
    rd.read_exact(&mut body)?;
    let (answered, a) = route(*r.lock().unwrap(), &method, &path, &String::from_utf8_lossy(&body));
    // A request that isn't to be answered fails in one of several ways.
    let a = if answered { a } else {
        match (how, method.as_str()) {
            (1, _) => None,
            (2, _) => Some(("404 Not Found", String::new())),
            (3, "GET") => Some(("200 OK", "<html>captive portal</html>".to_string())),
            (4, "GET") => Some(("200 OK", "{\"head\":".to_string())),
            (3, _) => Some(("302 Found", String::new())),
            (4, _) => Some(("409 Conflict", "{}".to_string())),
            _ => Some(("503 Service Unavailable", "{\"head\":\"00000000-0000-0000-0000-000000000000\",\"limit\":1,\"from\":\"00000000-0000-0000-0000-000000000000\",\"transactions\":[]}".to_string())),
        }
    };
    if let Some((status, text)) = a {
        let mut c = c;
        if status.starts_with("204") { write!(c, "HTTP/1.1 {}\r\nConnection: close\r\n\r\n", status)?; }
        else { write!(c, "HTTP/1.1 {}\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", status, text.len(), text)?; }
        c.flush()?;
    }
    Ok(())
}

/// Run `f`, given the URI of a server of `remote`.
pub fn served<T>(remote: &mut Remote, how: i64, f: impl FnOnce(String) -> T) -> T {
    let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let addr = l.local_addr().unwrap();
    let stop = AtomicBool::new(false);
    let r = Mutex::new(remote);
    std::thread::scope(|s| {
        s.spawn(|| {
            for c in l.incoming() {
                if stop.load(Ordering::SeqCst) { break; }
                if let Ok(c) = c { let _ = handle(&r, how, c); }
            }
        });
        let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(format!("http://{}/api", addr))));
        stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(addr);
        match t { Ok(t) => t, Err(e) => std::panic::resume_unwind(e) }
    })
}
