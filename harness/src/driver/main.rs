mod doors;
mod edn_text;
mod exec;
mod ext;
mod fault;
mod vocab;
mod gen;
mod gen2;
mod genq;
mod http;
mod layout;
mod notation;
mod obs;
mod query;
mod val;

use std::collections::VecDeque;
use std::io::{BufRead, Write};

fn arg(name: &str, d: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
}

fn main() {
    if std::env::var("DRV_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().to_string() };
    let dir = format!("{}/mentat_conf_{}", base, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let out = arg("--out", "/dev/stdout");
    let mut w = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    {
        let mut s = exec::Sess::new(&mut w, &dir);
        match cmd.as_str() {
            "gen" => {
                let mut g = gen::Gen::new(&arg("--profile", "mixed"), arg("--seed", "1").parse().unwrap(), arg("--traces", "10").parse().unwrap(), arg("--steps", "20").parse().unwrap());
                s.run(&mut g);
            }
            "replay" => {
                let f = std::fs::File::open(arg("--in", "")).unwrap();
                let mut ops = VecDeque::new();
                for l in std::io::BufReader::new(f).lines() {
                    let j: serde_json::Value = serde_json::from_str(&l.unwrap()).unwrap();
                    ops.push_back(if j["op"].is_object() { j["op"].clone() } else { j });
                }
                let mut r = gen::Replay { ops };
                s.run(&mut r);
            }
            x => { eprintln!("unknown command {}", x); std::process::exit(2); }
        }
        s.close_store();
        s.rm_files();
    }
    w.flush().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
}
