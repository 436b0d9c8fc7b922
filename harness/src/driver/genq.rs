//! Seeded generation of queries.
use crate::exec::View;
use crate::gen::*;
use crate::val::*;
use serde_json::{json, Value as J};

pub struct Q<'a> {
    g: &'a mut Gen,
    v: &'a View,
    ats: Vec<At>,
    /// variables bound so far, with their type ("" when not known)
    vars: Vec<(String, String)>,
    n: usize,
    ins: Vec<J>,
    rk: bool,
    ft: bool,
    lg: bool,
}

fn var(v: &str) -> J { json!({"k": "var", "v": v}) }
fn any() -> J { json!({"k": "_"}) }
fn int(n: i64) -> J { json!({"k": "int", "n": n}) }
fn kwl(s: &str) -> J { json!({"k": "kw", "s": s}) }
/// A constant in the value place.
pub fn lit(v: &Val) -> J {
    match v.t.as_str() { "long" if !v.s.is_empty() => json!({"k": "val", "x": v.j()}), "ref" | "long" => int(v.int()), "kw" => kwl(&v.s), _ => json!({"k": "val", "x": v.j()}) }
}
fn pat(e: J, a: J, v: J, tx: J) -> J { json!({"k": "pat", "e": e, "a": a, "v": v, "tx": tx}) }

impl<'a> Q<'a> {
    fn fresh(&mut self) -> String { self.n += 1; format!("?v{}", self.n) }
    fn typed(&self, t: &str) -> Vec<String> { self.vars.iter().filter(|x| x.1 == t).map(|x| x.0.clone()).collect() }
    fn ty(&self, v: &str) -> String { self.vars.iter().find(|x| x.0 == v).map(|x| x.1.clone()).unwrap_or_default() }
    fn bind(&mut self, v: &str, t: &str) { if !self.vars.iter().any(|x| x.0 == v) { self.vars.push((v.into(), t.into())); } }
    fn attr(&mut self) -> At {
        // mostly an attribute that has values
        let with: Vec<At> = self.ats.iter().filter(|a| self.v.db.facts.iter().any(|f| f.1 == a.e)).cloned().collect();
        if !with.is_empty() && self.g.rng.p(85) { self.g.rng.of(&with).clone() } else { self.g.rng.of(&self.ats).clone() }
    }
    fn value(&mut self, a: &At) -> Val { let v = self.v; self.g.tval(a, v) }
    fn ent(&mut self) -> i64 { let es = Gen::ents(self.v); if es.is_empty() || self.g.rng.p(4) { 65536 } else { *self.g.rng.of(&es) } }

    fn e_place(&mut self) -> (J, Option<String>) {
        let rs = self.typed("ref");
        match self.g.rng.w(&[60, 26, 9, 3, 2]) {
            0 if !rs.is_empty() => { let v = self.g.rng.of(&rs).clone(); (var(&v), None) }
            2 => (int(self.ent()), None),
            3 => { let k = self.attr().kw; (kwl(&k), None) }
            4 => (any(), None),
            _ => { let v = self.fresh(); (var(&v), Some(v)) }
        }
    }

    fn pattern(&mut self) -> J {
        let (e, newv) = self.e_place();
        if let Some(v) = &newv { let v = v.clone(); self.bind(&v, "ref"); }
        let x = self.attr();
        let meta = e["k"] == "kw";
        let (a, at) = match self.g.rng.w(&[78, 7, 9, 4, 1, 1]) {
            _ if meta => { let ks = [":db/valueType", ":db/cardinality", ":db/ident", ":db/index", ":db/unique"]; let k = *self.g.rng.of(&ks); (kwl(k), None) }
            1 => (int(x.e), Some(x)),
            2 => { let rs = self.typed("ref"); if !rs.is_empty() && self.g.rng.p(15) { let v = self.g.rng.of(&rs).clone(); (var(&v), None) } else { let v = self.fresh(); self.bind(&v, "ref"); (var(&v), None) } }
            3 => (any(), None),
            4 => (kwl(":no/such"), Some(x)),
            5 => (int(*self.g.rng.of(&[1, 10, 27, 65536, 3])), None),
            _ => (kwl(&x.kw), Some(x)),
        };
        let v = match &at {
            Some(at) => {
                let same = self.typed(&at.vt);
                match self.g.rng.w(&[52, 14, 24, 10]) {
                    1 if !same.is_empty() => { let v = self.g.rng.of(&same).clone(); var(&v) }
                    2 => { let x = self.value(at); lit(&x) }
                    3 => any(),
                    _ => { let v = self.fresh(); let t = at.vt.clone(); self.bind(&v, &t); var(&v) }
                }
            }
            None => match self.g.rng.w(&[48, 5, 15, 32]) {
                1 if !self.vars.is_empty() => { let v = self.g.rng.of(&self.vars).0.clone(); var(&v) }
                2 => { let ts = ["str", "kw", "bool", "inst", "uuid", "double"]; let t = *self.g.rng.of(&ts); let v = self.v; let x = self.g.raw(t, v); lit(&x) }
                3 => any(),
                _ => { let v = self.fresh(); self.bind(&v, if meta { "meta" } else { "" }); var(&v) }
            },
        };
        let tx = match self.g.rng.w(&[90, 7, 2, 1]) {
            1 => { let v = self.fresh(); self.bind(&v, "ref"); var(&v) }
            2 => { let rs = self.typed("ref"); if rs.is_empty() { any() } else { let v = self.g.rng.of(&rs).clone(); var(&v) } }
            3 => int(268435456 + 1 + self.g.rng.n(6) as i64),
            _ => any(),
        };
        pat(e, a, v, tx)
    }

    /// A pattern about a bound entity variable that binds nothing new.
    fn closed(&mut self, e: &str) -> J {
        let at = self.attr();
        let same = self.typed(&at.vt);
        if self.g.rng.p(8) {
            // about a fixed entity instead
            let e = self.ent();
            let v = match self.g.rng.w(&[30, 40, 30]) { 0 => any(), 1 if !same.is_empty() => { let x = self.g.rng.of(&same).clone(); var(&x) } _ => { let x = self.value(&at); lit(&x) } };
            return pat(int(e), kwl(&at.kw), v, any());
        }
        let v = match self.g.rng.w(&[30, 40, 30]) { 0 => any(), 1 if !same.is_empty() => { let x = self.g.rng.of(&same).clone(); var(&x) } _ => { let x = self.value(&at); lit(&x) } };
        pat(var(e), kwl(&at.kw), v, any())
    }

    fn pred(&mut self) -> Option<J> {
        let nums: Vec<(String, String)> = self.vars.iter().filter(|x| ["long", "double", "inst"].contains(&x.1.as_str())).cloned().collect();
        let refs = self.typed("ref");
        if !refs.is_empty() && (nums.is_empty() || self.g.rng.p(15)) {
            let f = *self.g.rng.of(&["unpermute", "differ", "differ", "tx-after", "tx-before"]);
            let l = self.g.rng.of(&refs).clone();
            let r = if self.g.rng.p(70) { let r = self.g.rng.of(&refs).clone(); var(&r) } else if f.starts_with("tx") { int(268435456 + self.g.rng.n(6) as i64) } else { int(self.ent()) };
            return Some(if self.g.rng.p(70) { json!({"k": "pred", "fn": f, "l": var(&l), "r": r}) } else { json!({"k": "pred", "fn": f, "l": r, "r": var(&l)}) });
        }
        if nums.is_empty() { return None; }
        self.rk = true;
        let f = *self.g.rng.of(&["<", "<=", ">", ">=", "!="]);
        let (l, t) = self.g.rng.of(&nums).clone();
        let cls = |x: &str| if x == "inst" { 1 } else { 0 };
        let others: Vec<String> = nums.iter().filter(|x| cls(&x.1) == cls(&t) && x.0 != l).map(|x| x.0.clone()).collect();
        let r = if !others.is_empty() && self.g.rng.p(40) { let o = self.g.rng.of(&others).clone(); var(&o) }
            else { let tt = if t == "inst" { "inst" } else if self.g.rng.p(75) { t.as_str() } else { *self.g.rng.of(&["long", "double"]) }; let v = self.v; let x = self.g.raw(tt, v); lit(&x) };
        Some(if self.g.rng.p(60) { json!({"k": "pred", "fn": f, "l": var(&l), "r": r}) } else { json!({"k": "pred", "fn": f, "l": r, "r": var(&l)}) })
    }

    fn inner<T>(&mut self, keep: &[String], f: impl FnOnce(&mut Self) -> T) -> T {
        let saved = self.vars.clone();
        self.vars.retain(|x| keep.contains(&x.0));
        let r = f(self);
        self.vars = saved;
        r
    }

    fn not(&mut self, depth: usize) -> Option<J> {
        let rs = self.typed("ref");
        if rs.is_empty() { return None; }
        let e = self.g.rng.of(&rs).clone();
        if self.g.rng.p(50) {
            let mut cs = vec![self.closed(&e)];
            if self.g.rng.p(25) { cs.push(self.closed(&e)); }
            if depth < 1 && self.g.rng.p(10) { let k = self.closed(&e); let vs: Vec<String> = vec![]; cs.push(json!({"k": "not", "join": false, "vars": vs, "cs": [k]})); }
            if self.g.rng.p(12) { if let Some(p) = self.pred() { cs.push(p); } }
            return Some(json!({"k": "not", "join": false, "vars": [], "cs": cs}));
        }
        let mut keep = vec![e.clone()];
        if self.g.rng.p(25) { let x = self.g.rng.of(&self.vars).0.clone(); if !keep.contains(&x) { keep.push(x); } }
        let k2 = keep.clone();
        let cs = self.inner(&keep, |s| {
            let at = s.attr();
            let v = s.fresh();
            let t = at.vt.clone();
            let mut cs = vec![if at.vt == "ref" && s.g.rng.p(40) { s.bind(&v, "ref"); pat(var(&v), kwl(&at.kw), var(&e), any()) } else { s.bind(&v, &t); pat(var(&e), kwl(&at.kw), var(&v), any()) }];
            if s.g.rng.p(40) { cs.push(s.pattern()); }
            if s.g.rng.p(30) { if let Some(p) = s.pred() { cs.push(p); } }
            for k in &k2 { if !cs.iter().any(|c| mentions(c, k)) { let c = if s.ty(k) == "ref" { s.closed(k) } else { continue }; cs.push(c); } }
            cs
        });
        let keep: Vec<String> = keep.into_iter().filter(|k| cs.iter().any(|c| mentions(c, k))).collect();
        Some(json!({"k": "not", "join": true, "vars": keep, "cs": cs}))
    }

    fn or(&mut self, depth: usize) -> Option<J> {
        let rs = self.typed("ref");
        let e = if !rs.is_empty() && self.g.rng.p(65) { self.g.rng.of(&rs).clone() } else { self.fresh() };
        let n = 2 + self.g.rng.n(2);
        let shape = self.g.rng.w(&[30, 30, 25, 15]);
        let at = self.attr();
        let mut arms = vec![];
        // entities named in the arms, which may not exist
        if self.g.rng.p(4) {
            let v = self.fresh();
            for _ in 0..n { let k = if self.g.rng.p(60) { ":no/such".to_string() } else { self.attr().kw }; let e = if self.g.rng.p(20) { int(self.ent()) } else { kwl(&k) };
                arms.push(vec![pat(e, kwl(*self.g.rng.of(&[":db/valueType", ":db/cardinality", ":db/ident", ":no/such"])), var(&v), any())]); }
            self.bind(&v, "meta");
            return Some(json!({"k": "or", "join": false, "vars": [], "arms": arms}));
        }
        let mut vars = vec![e.clone()];
        match shape {
            // the same variables in each arm, nothing new but the entity
            0 => { for _ in 0..n { let x = self.attr(); let v = if self.g.rng.p(35) { any() } else { let y = self.value(&x); lit(&y) };
                let mut arm = vec![pat(var(&e), kwl(&x.kw), v, any())];
                if self.g.rng.p(20) { let y = self.attr(); let z = self.value(&y); arm.push(pat(var(&e), kwl(&y.kw), if self.g.rng.p(50) { any() } else { lit(&z) }, any())); }
                if self.g.rng.p(12) { let y = self.attr(); arm.push(json!({"k": "not", "join": false, "vars": [], "cs": [pat(var(&e), kwl(&y.kw), any(), any())]})); }
                arms.push(arm); }
                self.bind(&e, "ref");
                return Some(json!({"k": "or", "join": false, "vars": [], "arms": arms})); }
            // a value variable in each arm
            1 | 2 => {
                let mixed = self.g.rng.p(15);
                let cands: Vec<At> = self.ats.iter().filter(|x| mixed || x.vt == at.vt).cloned().collect();
                let same = self.typed(&at.vt);
                let v = if !same.is_empty() && !mixed && self.g.rng.p(25) { let x = self.g.rng.of(&same).clone(); if x == e { self.fresh() } else { x } } else { self.fresh() };
                vars.push(v.clone());
                let mut ts = vec![];
                for _ in 0..n {
                    let x = self.g.rng.of(&cands).clone();
                    ts.push(x.vt.clone());
                    let mut arm = if x.vt == "ref" && self.g.rng.p(30) { vec![pat(var(&v), kwl(&x.kw), var(&e), any())] } else { vec![pat(var(&e), kwl(&x.kw), var(&v), any())] };
                    if shape == 2 {
                        let y = self.attr();
                        let inner = self.fresh();
                        let t = y.vt.clone();
                        arm.push(pat(var(&e), kwl(&y.kw), var(&inner), any()));
                        if ["long", "double", "inst"].contains(&t.as_str()) && self.g.rng.p(40) { self.rk = true; let vv = self.v; let c = self.g.raw(&t, vv); arm.push(json!({"k": "pred", "fn": *self.g.rng.of(&["<", ">", "!="]), "l": var(&inner), "r": lit(&c)})); }
                    }
                    arms.push(arm);
                }
                ts.sort(); ts.dedup();
                let known = self.vars.iter().any(|x| x.0 == v);
                self.bind(&e, "ref");
                if !known { let t = if ts.len() == 1 { ts[0].clone() } else { String::new() }; self.bind(&v, &t); }
                return Some(json!({"k": "or", "join": shape == 2, "vars": if shape == 2 { vars } else { vec![] }, "arms": arms}));
            }
            // or-join on the entity alone
            _ => {
                for _ in 0..n { let keep = vec![e.clone()];
                    let known = self.vars.iter().any(|x| x.0 == e);
                    let arm = self.inner(&keep, |s| { s.bind(&e, "ref"); let x = s.attr(); let v = s.fresh(); let t = x.vt.clone(); s.bind(&v, &t);
                        let mut a = vec![pat(var(&e), kwl(&x.kw), var(&v), any())];
                        if s.g.rng.p(40) { a.push(s.pattern()); }
                        if depth < 1 && s.g.rng.p(15) { if let Some(o) = s.or(depth + 1) { a.push(o); } }
                        if s.g.rng.p(25) { if let Some(o) = s.pred() { a.push(o); } }
                        if s.g.rng.p(10) { if let Some(o) = s.not(1) { a.push(o); } }
                        a });
                    let _ = known;
                    arms.push(arm); }
                self.bind(&e, "ref");
                Some(json!({"k": "or", "join": true, "vars": vars, "arms": arms}))
            }
        }
    }

    fn ground(&mut self) -> J {
        let k = self.g.rng.w(&[35, 30, 15, 20]);
        let x = self.attr();
        let y = self.attr();
        let m = 1 + self.g.rng.n(3);
        let mut pick = |s: &mut Self, at: &At| -> String {
            let same = s.typed(&at.vt);
            if !same.is_empty() && s.g.rng.p(30) { s.g.rng.of(&same).clone() } else { s.fresh() }
        };
        let v1 = pick(self, &x);
        let v2 = { let z = pick(self, &y); if z == v1 { self.fresh() } else { z } };
        // A number is read as an entity only where the variable must be one.
        let fix = |s: &Self, v: &str, mut val: Val| { if val.t == "ref" && s.ty(v) != "ref" { val.t = "long".into(); } val.j() };
        let tof = |s: &Self, v: &str, at: &At| if at.vt == "ref" && s.ty(v) != "ref" { "long".to_string() } else { at.vt.clone() };
        let (b, vars, rows): (&str, Vec<String>, Vec<Vec<J>>) = match k {
            0 => { let a = self.value(&x); ("scalar", vec![v1.clone()], vec![vec![fix(self, &v1, a)]]) }
            1 => { let r = (0..m).map(|_| { let a = self.value(&x); vec![fix(self, &v1, a)] }).collect(); ("coll", vec![v1.clone()], r) }
            2 => { let a = self.value(&x); let b = self.value(&y); ("tuple", vec![v1.clone(), v2.clone()], vec![vec![fix(self, &v1, a), fix(self, &v2, b)]]) }
            _ => { let r = (0..m).map(|_| { let a = self.value(&x); let b = self.value(&y); vec![fix(self, &v1, a), fix(self, &v2, b)] }).collect(); ("rel", vec![v1.clone(), v2.clone()], r) }
        };
        let t1 = tof(self, &v1, &x);
        self.bind(&v1, &t1);
        if vars.len() > 1 { let t2 = tof(self, &v2, &y); self.bind(&v2, &t2); }
        json!({"k": "ground", "b": b, "vars": vars, "rows": rows})
    }

    fn fulltext(&mut self) -> Option<J> {
        let fs: Vec<At> = self.ats.iter().filter(|a| a.ft).cloned().collect();
        if fs.is_empty() { return None; }
        self.ft = true;
        let a = self.g.rng.of(&fs).clone();
        let w = *self.g.rng.of(&["hello", "world", "there", "a", "b", "ab", "zebra", "y"]);
        let e = { let rs = self.typed("ref"); if !rs.is_empty() && self.g.rng.p(40) { self.g.rng.of(&rs).clone() } else { self.fresh() } };
        let v = if self.g.rng.p(70) { self.fresh() } else { "_".into() };
        let t = if self.g.rng.p(35) { self.fresh() } else { "_".into() };
        let sc = if self.g.rng.p(15) { self.fresh() } else { "_".into() };
        let s = if self.g.rng.p(20) { let i = format!("?i{}", self.ins.len()); self.ins.push(json!({"v": i, "x": st(w).j()})); var(&i) } else { json!({"k": "val", "x": st(w).j()}) };
        self.bind(&e, "ref");
        if v != "_" { self.bind(&v, "str"); }
        if t != "_" { self.bind(&t, "ref"); }
        if sc != "_" { self.bind(&sc, "double"); }
        let mut vars = vec![e, v, t, sc];
        while vars.len() > 1 && vars.last().unwrap() == "_" { vars.pop(); }
        while vars.len() < 4 && self.g.rng.p(20) { vars.push("_".into()); }
        Some(json!({"k": "ft", "a": if self.g.rng.p(80) { kwl(&a.kw) } else { int(a.e) }, "s": s, "vars": vars}))
    }

    fn txlog(&mut self) -> Vec<J> {
        self.lg = true;
        let t0 = 268435456i64;
        let top = self.v.mem.parts.get(2).cloned().unwrap_or(t0 + 1);
        let lo = t0 + 1 + self.g.rng.n((top - t0) as usize + 1) as i64;
        let hi = lo + self.g.rng.n(6) as i64;
        let tv = self.fresh();
        let mut o = vec![json!({"k": "txids", "lo": int(lo), "hi": int(hi), "coll": self.g.rng.p(50), "vars": [tv]})];
        self.bind(&tv, "ref");
        if self.g.rng.p(75) {
            let mut vars = vec![];
            for t in &["ref", "ref", "", "ref", "bool"] { let x = if self.g.rng.p(60) { let x = self.fresh(); self.bind(&x, t); x } else { "_".into() }; vars.push(x); }
            if vars.iter().all(|x| x == "_") { vars[0] = self.fresh(); let x = vars[0].clone(); self.bind(&x, "ref"); }
            let t = if self.g.rng.p(50) { o.clear(); self.vars.retain(|x| x.0 != tv); int(lo.min(top - 1).max(t0 + 1)) } else { var(&tv) };
            o.push(json!({"k": "txdata", "tx": t, "vars": vars}));
        }
        o
    }
}

fn mentions(c: &J, v: &str) -> bool {
    match c { J::String(s) => s == v, J::Array(a) => a.iter().any(|x| mentions(x, v)), J::Object(m) => m.values().any(|x| mentions(x, v)), _ => false }
}

pub fn query(g: &mut Gen, v: &View) -> Option<J> {
    let ats = Gen::attrs(v);
    if ats.is_empty() { return None; }
    let fts = g.is("fts");
    let fnd = g.is("find");
    let txl = g.is("txlog");
    let mut q = Q { g, v, ats, vars: vec![], n: 0, ins: vec![], rk: false, ft: false, lg: false };
    let mut cs: Vec<J> = vec![];
    if q.g.rng.p(14) {
        let a = q.attr();
        let x = q.value(&a);
        let i = format!("?i{}", q.ins.len());
        q.ins.push(json!({"v": i, "x": x.j()}));
        q.bind(&i, &a.vt);
    }
    if q.g.rng.p(10) { let c = q.ground(); cs.push(c); }
    if fts { if let Some(c) = q.fulltext() { cs.push(c); } }
    if txl { let mut c = q.txlog(); cs.append(&mut c); }
    else if q.g.rng.p(4) && !fnd { let mut c = q.txlog(); cs.append(&mut c); }
    let np = if (fts || txl) && q.g.rng.p(60) { q.g.rng.n(2) } else { 1 + q.g.rng.w(&[40, 40, 20]) };
    for _ in 0..np { let c = q.pattern(); cs.push(c); }
    if !fnd || q.g.rng.p(30) {
        for _ in 0..(1 + q.g.rng.n(2)) {
            let c = match q.g.rng.w(&[24, 18, 18, 8, 6, 26]) {
                0 => q.pred(),
                1 => q.not(0),
                2 => q.or(0),
                3 => Some(q.ground()),
                4 => { let us: Vec<String> = q.vars.iter().filter(|x| x.1.is_empty()).map(|x| x.0.clone()).collect();
                    if us.is_empty() { None } else { let x = q.g.rng.of(&us).clone(); let ts = ["long", "str", "ref", "kw", "bool", "inst", "double", "uuid"]; let t = *q.g.rng.of(&ts);
                        for y in q.vars.iter_mut() { if y.0 == x { y.1 = t.into(); } }
                        Some(json!({"k": "type", "v": x, "t": t})) } }
                _ => None,
            };
            if let Some(c) = c { if c["k"] == "type" && q.g.rng.p(50) { cs.insert(0, c); } else { cs.push(c); } }
        }
        if q.g.rng.p(15) { let c = q.pattern(); cs.push(c); }
    }
    // every variable is bound by now; what is to be returned
    let inputs: Vec<String> = q.ins.iter().map(|x| x["v"].as_str().unwrap().to_string()).collect();
    let mut vs: Vec<(String, String)> = q.vars.clone();
    vs.retain(|x| cs.iter().any(|c| mentions(c, &x.0)) || inputs.contains(&x.0));
    if vs.is_empty() { return None; }
    let n = 1 + q.g.rng.n(3.min(vs.len()));
    let mut sel: Vec<(String, String)> = vec![];
    for _ in 0..n { let x = q.g.rng.of(&vs).clone(); if !sel.contains(&x) { sel.push(x); } }
    let mut kind = ["rel", "coll", "tuple", "scalar"][q.g.rng.w(&[62, 14, 12, 12])];
    let mut es: Vec<J> = sel.iter().map(|x| json!({"k": "var", "v": x.0})).collect();
    let mut with: Vec<String> = vec![];
    let mut order: Vec<J> = vec![];
    let mut limit = 0;
    let agg = q.g.rng.p(if fnd { 45 } else { 8 });
    if agg {
        let nums: Vec<(String, String)> = vs.iter().filter(|x| ["long", "double"].contains(&x.1.as_str()) && !inputs.contains(&x.0)).cloned().collect();
        let ords: Vec<(String, String)> = vs.iter().filter(|x| ["long", "double", "inst"].contains(&x.1.as_str()) && !inputs.contains(&x.0)).cloned().collect();
        let all: Vec<(String, String)> = vs.iter().filter(|x| !inputs.contains(&x.0)).cloned().collect();
        if all.is_empty() { return None; }
        let (f, x) = match q.g.rng.w(&[35, 20, 15, 15, 15]) {
            1 if !nums.is_empty() => ("sum", q.g.rng.of(&nums).0.clone()),
            2 if !nums.is_empty() => ("avg", q.g.rng.of(&nums).0.clone()),
            3 if !ords.is_empty() => ("min", q.g.rng.of(&ords).0.clone()),
            4 if !ords.is_empty() => ("max", q.g.rng.of(&ords).0.clone()),
            _ => ("count", q.g.rng.of(&all).0.clone()),
        };
        sel.retain(|y| y.0 != x && !inputs.contains(&y.0));
        sel.truncate(2);
        es = sel.iter().map(|y| json!({"k": "var", "v": y.0})).collect();
        if (f == "min" || f == "max") && !sel.is_empty() && q.g.rng.p(50) { let i = q.g.rng.n(es.len()); es[i]["k"] = json!("the"); }
        let at = q.g.rng.n(es.len() + 1);
        es.insert(at, json!({"k": "agg", "fn": f, "v": x}));
        q.rk = true;
        if q.g.rng.p(40) { let rest: Vec<(String, String)> = all.iter().filter(|y| y.0 != x && !sel.contains(y)).cloned().collect(); if !rest.is_empty() { with.push(q.g.rng.of(&rest).0.clone()); } }
        if es.len() > 1 { if kind == "coll" || kind == "scalar" { kind = "rel"; } } else if kind == "tuple" { kind = "rel"; }
    } else {
        let pull: Vec<(String, String)> = vs.iter().filter(|x| x.1 == "ref").cloned().collect();
        if !pull.is_empty() && q.g.rng.p(if fnd { 25 } else { 4 }) {
            let x = q.g.rng.of(&pull).clone();
            let mut specs = vec![];
            if q.g.rng.p(20) { specs.push(json!({"a": "*", "as": ""})); }
            else {
                let m = 1 + q.g.rng.n(3);
                let mut used: Vec<String> = vec![];
                for _ in 0..m {
                    let k = if q.g.rng.p(8) { ":db/ident".to_string() } else if q.g.rng.p(10) && !used.contains(&":db/id".to_string()) { ":db/id".to_string() } else if q.g.rng.p(5) { ":no/such".to_string() } else { q.attr().kw };
                    if used.contains(&k) { continue; }
                    used.push(k.clone());
                    let al = if q.g.rng.p(20) { format!(":as/x{}", specs.len()) } else { String::new() };
                    specs.push(json!({"a": k, "as": al}));
                }
            }
            sel.retain(|y| y.0 != x.0);
            es = sel.iter().map(|y| json!({"k": "var", "v": y.0})).collect();
            es.truncate(1);
            es.insert(0, json!({"k": "pull", "v": x.0, "as": specs}));
        }
        if kind == "coll" || kind == "scalar" { es.truncate(1); }
    }
    if q.g.rng.p(if fnd { 45 } else { 15 }) && kind != "scalar" {
        let m = 1 + q.g.rng.n(2);
        let mut used: Vec<String> = vec![];
        for _ in 0..m {
            let fv: Vec<String> = es.iter().filter(|e| e["k"] == "var").map(|e| e["v"].as_str().unwrap().to_string()).collect();
            let x = if agg || q.g.rng.p(80) { if fv.is_empty() { continue; } q.g.rng.of(&fv).clone() } else { q.g.rng.of(&vs).0.clone() };
            if used.contains(&x) { continue; }
            used.push(x.clone());
            order.push(json!({"v": x, "asc": q.g.rng.p(55)}));
        }
        q.rk = true;
    }
    if q.g.rng.p(if fnd { 35 } else { 12 }) { limit = 1 + q.g.rng.n(4) as i64; }
    if !agg && q.g.rng.p(3) { let rest: Vec<String> = vs.iter().map(|x| x.0.clone()).filter(|x| !es.iter().any(|e| e["v"] == *x)).collect(); if !rest.is_empty() { with.push(q.g.rng.of(&rest).clone()); } }
    let via = ["once", "prepare", "prepare2"][q.g.rng.w(&[70, 15, 15])];
    let how = if v.in_ip || q.g.rng.p(60) { "store" } else { "read" };
    Some(json!({"k": "q", "how": how, "via": via, "find": {"k": kind, "es": es}, "with": with, "in": q.ins, "where": cs, "order": order, "limit": limit,
        "rk": q.rk, "ft": q.ft, "lg": q.lg}))
}
