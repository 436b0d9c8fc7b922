//! Timelines and synchronisation: several stores and the remote log they share.
use crate::exec::{err, guard, ok, Sess};
use crate::obs::{Db, Mem};
use crate::val::*;
use mentat::{InProgress, Store, Syncable};
use mentat_db::timelines;
use mentat_tolstoy::{GlobalTransactionLog, SyncFollowup, SyncReport, Syncer, Tx, TxPart};
use public_traits::errors::Result;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use uuid::Uuid;

/// A store that is set aside while another one is used.
pub struct Rep { store: Store, db: Db, mem: Mem }

/// A remote log in memory.
#[derive(Default)]
pub struct Remote {
    head: Uuid,
    chunks: HashMap<Uuid, TxPart>,
    txs: HashMap<Uuid, (Uuid, Vec<TxPart>)>,
    ids: HashMap<Uuid, Vec<Uuid>>,
    seen: Vec<Uuid>,
    /// the number of calls that are answered
    left: Cell<i64>,
    /// the first call that is not answered has its effect
    lost: bool,
}
impl Remote {
    /// Does a request that fails have its effect?
    fn late(&self) -> bool { self.lost && self.left.get() == -1 }
    fn tick(&self) -> Result<()> {
        self.left.set(self.left.get() - 1);
        if self.left.get() < 0 { Err(tolstoy_traits::errors::TolstoyError::BadRemoteResponse("unavailable".into()).into()) } else { Ok(()) }
    }
    /// The transactions after one, the chunks of one, and a chunk: what is asked for over HTTP.
    pub fn after(&self, tx: &Uuid) -> Result<Vec<Uuid>> {
        self.tick()?;
        let c = self.chain(&self.head);
        let i = if *tx == Uuid::nil() { 0 } else { match c.iter().position(|u| u == tx) { Some(i) => i + 1, None => return Err(tolstoy_traits::errors::TolstoyError::BadRemoteResponse("no such transaction".into()).into()) } };
        Ok(c[i..].to_vec())
    }
    pub fn transaction(&self, tx: &Uuid) -> Result<(Uuid, Vec<Uuid>)> { self.tick()?; Ok((self.txs[tx].0, self.ids[tx].clone())) }
    pub fn chunk(&self, c: &Uuid) -> Result<TxPart> { self.tick()?; Ok(self.chunks[c].clone()) }
    fn chain(&self, head: &Uuid) -> Vec<Uuid> {
        let mut o = vec![];
        let mut u = *head;
        while u != Uuid::nil() {
            o.push(u);
            u = match self.txs.get(&u) { Some(t) => t.0, None => break };
        }
        o.reverse();
        o
    }
}
impl GlobalTransactionLog for Remote {
    fn head(&self) -> Result<Uuid> { self.tick()?; Ok(self.head) }
    fn transactions_after(&self, tx: &Uuid) -> Result<Vec<Tx>> {
        Ok(self.after(tx)?.iter().map(|u| Tx { tx: *u, parts: self.txs[u].1.clone() }).collect())
    }
    fn set_head(&mut self, tx: &Uuid) -> Result<()> { let t = self.tick(); if t.is_ok() || self.late() { self.head = *tx; } t }
    fn put_transaction(&mut self, tx: &Uuid, parent: &Uuid, chunks: &[Uuid]) -> Result<()> {
        let t = self.tick();
        if t.is_ok() || self.late() {
            let ps = chunks.iter().map(|c| self.chunks[c].clone()).collect();
            self.txs.insert(*tx, (*parent, ps));
            self.ids.insert(*tx, chunks.to_vec());
        }
        t
    }
    fn put_chunk(&mut self, tx: &Uuid, payload: &TxPart) -> Result<()> {
        self.tick()?;
        // What is sent is text.
        let s = serde_json::to_string(payload).unwrap();
        let p: TxPart = serde_json::from_str(&s)?;
        self.chunks.insert(*tx, p);
        Ok(())
    }
}

fn part_j(p: &TxPart) -> J { json!([p.e, p.a, from_typed(&p.v).j(), p.added]) }

pub fn store_op(s: &mut Sess, op: &J) -> Option<J> {
    Some(match op["k"].as_str().unwrap() {
        "move" => {
            let from = op["from"].as_i64().unwrap();
            let tl = op["tl"].as_i64().unwrap();
            let st = s.store.as_mut().unwrap();
            guard(|| {
                let mut ip = match st.begin_transaction() { Ok(ip) => ip, Err(e) => return err(e.to_string()) };
                match timelines::move_from_main_timeline(&ip.transaction, &ip.schema, ip.partition_map.clone(), from.., tl) {
                    Ok((sch, pm)) => {
                        if let Some(x) = sch { ip.schema = x; }
                        ip.partition_map = pm;
                        match ip.commit() { Ok(()) => ok(json!({})), Err(e) => err(e.to_string()) }
                    }
                    Err(e) => err(e.to_string()),
                }
            })
        }
        "sw" => {
            let to = op["rep"].as_i64().unwrap();
            if to == s.cur { return Some(ok(json!({}))); }
            let old = Rep { store: s.store.take().unwrap(), db: std::mem::take(&mut s.view.db), mem: std::mem::take(&mut s.view.mem) };
            s.reps.insert(s.cur, old);
            s.cur = to;
            match s.reps.remove(&to) {
                Some(r) => { s.store = Some(r.store); s.view.db = r.db; s.view.mem = r.mem; }
                None => { s.store = Some(Store::open("").unwrap()); s.first = true; }
            }
            ok(json!({}))
        }
        "sync" => {
            s.remote.left.set(op["calls"].as_i64().unwrap_or(1 << 40));
            s.remote.lost = op["lost"].as_bool().unwrap_or(false);
            let st = s.store.as_mut().unwrap();
            let remote = &mut s.remote;
            // Straight, or by HTTP: `how` a request fails is only of interest to the latter.
            let mut sync = |ip: &mut InProgress| match op["http"].as_i64() {
                None => Syncer::sync(ip, remote),
                Some(how) => crate::http::served(remote, how, |uri| ip.sync(&uri, crate::http::USER)),
            };
            let mut r = guard(|| {
                let mut ip = match st.begin_transaction() { Ok(ip) => ip, Err(e) => return err(e.to_string()) };
                match sync(&mut ip) {
                    Ok(rep) => match ip.commit() {
                        Ok(()) => ok(json!({"rep": match rep {
                            SyncReport::IncompatibleRemoteBootstrap(..) => "boot",
                            SyncReport::BadRemoteState(..) => "bad",
                            SyncReport::NoChanges => "same",
                            SyncReport::RemoteFastForward => "up",
                            SyncReport::LocalFastForward => "down",
                            SyncReport::Merge(SyncFollowup::None) => "merge",
                            SyncReport::Merge(SyncFollowup::FullSync) => "again",
                        }})),
                        Err(e) => err(e.to_string()),
                    },
                    Err(e) => err(e.to_string()),
                }
            });
            let remote = &mut s.remote;
            let c = remote.chain(&remote.head);
            let keep = c.iter().zip(remote.seen.iter()).take_while(|(a, b)| a == b).count();
            r["keep"] = json!(keep);
            r["whole"] = json!(c.first().map(|u| remote.txs[u].0 == Uuid::nil()).unwrap_or(true));
            r["new"] = J::Array(c[keep..].iter().map(|u| J::Array(remote.txs[u].1.iter().map(part_j).collect())).collect());
            r["fail"] = json!(remote.left.get() < 0);
            remote.seen = c;
            r
        }
        _ => return None,
    })
}

pub type Reps = BTreeMap<i64, Rep>;
