//! Seeded generation of histories.  It looks at the observed state only to make interesting inputs;
//! it decides nothing.
use crate::exec::{Source, View};
use crate::val::*;
use serde_json::{json, Value as J};
use std::collections::VecDeque;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.next() % k as u64) as usize } }
    pub fn p(&mut self, pct: u64) -> bool { self.next() % 100 < pct }
    #[track_caller]
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.n(xs.len()); &xs[i] }
    pub fn w(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut r = self.next() % t;
        for (i, w) in ws.iter().enumerate() { if r < *w { return i; } r -= w; }
        0
    }
}

#[derive(Clone, Debug)]
pub struct At { pub e: i64, pub kw: String, pub vt: String, pub many: bool, pub uniq: String, pub idx: bool, pub ft: bool, pub comp: bool, pub nh: bool }

pub struct Gen {
    pub rng: Rng,
    pub profile: String,
    /// Other doors are used.
    pub doors: bool,
    pub traces: usize,
    pub steps: usize,
    pub step: usize,
    pub queue: VecDeque<J>,
    pub started: bool,
    pub ended: bool,
    pub ipn: usize,
    pub sps: Vec<String>,
    pub nobs: usize,
    pub fresh: usize,
    pub lastvoc: J,
    /// attributes once cached
    pub cached: Vec<String>,
}

pub const POOL: &[(&str, &str, &str, bool, &str, bool, bool, bool)] = &[
    // group, ident, type, many, unique, index, fulltext, component
    ("l", ":t/l1", "long", false, "n", false, false, false),
    ("l", ":t/lm", "long", true, "n", false, false, false),
    ("l", ":t/lx", "long", false, "n", true, false, false),
    ("s", ":t/s1", "str", false, "n", false, false, false),
    ("s", ":t/sm", "str", true, "n", true, false, false),
    ("i", ":t/id", "str", false, "i", true, false, false),
    ("i", ":t/id2", "long", false, "i", true, false, false),
    ("i", ":t/idm", "str", true, "i", true, false, false),
    ("i", ":t/idk", "kw", false, "i", true, false, false),
    ("u", ":t/uv", "long", false, "v", true, false, false),
    ("u", ":t/uvm", "long", true, "v", true, false, false),
    ("u", ":t/uvs", "str", false, "v", true, false, false),
    ("v", ":t/d1", "double", false, "n", false, false, false),
    ("v", ":t/dm", "double", true, "n", true, false, false),
    ("v", ":t/b1", "bool", false, "n", false, false, false),
    ("v", ":t/bm", "bool", true, "n", false, false, false),
    ("v", ":t/k1", "kw", false, "n", false, false, false),
    ("v", ":t/km", "kw", true, "n", true, false, false),
    ("v", ":t/in1", "inst", false, "n", false, false, false),
    ("v", ":t/inm", "inst", true, "n", true, false, false),
    ("v", ":t/u1", "uuid", false, "n", false, false, false),
    ("v", ":t/um", "uuid", true, "n", false, false, false),
    ("r", ":t/r1", "ref", false, "n", false, false, false),
    ("r", ":t/rm", "ref", true, "n", false, false, false),
    ("c", ":t/rc", "ref", true, "n", false, false, true),
    ("c", ":t/rc1", "ref", false, "n", true, false, true),
    ("q", ":t/rid", "ref", false, "i", true, false, false),
    ("q", ":t/ruv", "ref", true, "v", true, false, false),
    ("f", ":t/ft", "str", false, "n", true, true, false),
    ("f", ":t/ftm", "str", true, "n", true, true, false),
];

pub fn ap(k: &str) -> J { json!({"kw": k, "n": 0, "rev": false}) }
pub fn apr(k: &str) -> J { json!({"kw": k, "n": 0, "rev": true}) }
pub fn val(v: &Val) -> J { json!({"k": "val", "v": v.j()}) }
pub fn lu(a: &str, v: &Val) -> J { json!({"k": "lu", "a": ap(a), "v": v.j()}) }
pub fn add(e: J, a: J, x: J) -> J { json!({"k": "add", "e": e, "a": a, "v": x}) }
pub fn ret(e: J, a: J, x: J) -> J { json!({"k": "ret", "e": e, "a": a, "v": x}) }
pub fn tmp(s: &str) -> J { val(&st(s)) }
pub fn none() -> J { json!({"k": "none"}) }
pub fn kv(a: J, v: J) -> J { json!({"a": a, "v": v}) }
pub fn map(id: J, kvs: Vec<J>) -> J { json!({"k": "map", "id": id, "kvs": kvs}) }
pub fn tx(terms: Vec<J>) -> J { json!({"k": "tx", "via": "text", "terms": terms}) }

pub fn vt_kw(t: &str) -> &'static str {
    match t { "ref" => ":db.type/ref", "bool" => ":db.type/boolean", "inst" => ":db.type/instant", "long" => ":db.type/long", "double" => ":db.type/double",
        "str" => ":db.type/string", "kw" => ":db.type/keyword", _ => ":db.type/uuid" }
}

pub fn define(ident: &str, t: &str, many: bool, u: &str, idx: bool, ft: bool, comp: bool) -> J {
    let mut kvs = vec![kv(ap(":db/ident"), val(&kw(ident))), kv(ap(":db/valueType"), val(&kw(vt_kw(t)))),
        kv(ap(":db/cardinality"), val(&kw(if many { ":db.cardinality/many" } else { ":db.cardinality/one" })))];
    if u != "n" { kvs.push(kv(ap(":db/unique"), val(&kw(if u == "i" { ":db.unique/identity" } else { ":db.unique/value" })))); }
    if idx { kvs.push(kv(ap(":db/index"), val(&bool_(true)))); }
    if ft { kvs.push(kv(ap(":db/fulltext"), val(&bool_(true)))); }
    if comp { kvs.push(kv(ap(":db/isComponent"), val(&bool_(true)))); }
    map(none(), kvs)
}

impl Gen {
    pub fn new(profile: &str, seed: u64, traces: usize, steps: usize) -> Gen {
        Gen { rng: Rng(seed.wrapping_mul(0x1000193) ^ profile.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64))), profile: profile.into(), doors: profile == "doors", traces, steps, step: 0,
            queue: VecDeque::new(), started: false, ended: true, ipn: 0, sps: vec![], nobs: 0, fresh: 0, lastvoc: J::Null, cached: vec![] }
    }
    pub fn is(&self, p: &str) -> bool { self.profile == p }

    pub fn attrs(v: &View) -> Vec<At> {
        let mut o = vec![];
        for x in &v.mem.sch {
            if x.0 <= 40 { continue; }
            if let Some((k, _)) = v.mem.eids.iter().find(|(_, e)| *e == x.0) {
                o.push(At { e: x.0, kw: k.clone(), vt: x.1.clone(), many: x.2, uniq: x.3.clone(), idx: x.4, ft: x.5, comp: x.6, nh: x.7 });
            }
        }
        o
    }
    pub fn ents(v: &View) -> Vec<i64> {
        let mut o: Vec<i64> = v.db.facts.iter().filter(|f| f.0 >= 65536 && f.0 < 268435456 && f.1 > 40).map(|f| f.0).collect();
        o.dedup();
        o
    }

    pub fn raw(&mut self, t: &str, v: &View) -> Val {
        if ["query", "find", "fts", "txlog", "edn"].contains(&self.profile.as_str()) {
            // few values, so that they meet
            match t {
                "long" => return long([0, 1, 2, 3, -1][self.rng.n(5)]),
                "double" => return dbl([0.5, 1.5, 1.0, 2.0, -2.5][self.rng.n(5)]),
                "str" if self.is("fts") => { let xs = ["hello world", "hello there", "Hello, World!", "a b", "zebra", "", "world's end", "ab a"]; return st(*self.rng.of(&xs)) }
                "str" if self.is("edn") && self.rng.p(60) => { let xs = ["\n", "a\nb", "\t\"q\"", "\r", "\\", "\\n", "; no", "[", "a,b", "\\\"", "#_ x", " "]; return st(*self.rng.of(&xs)) }
                "str" => return st(["a", "b", "c", "A"][self.rng.n(4)]),
                "inst" => { let xs = [1514804400000000i64, 1514804400123456, 0, -1500000]; return inst(*self.rng.of(&xs)) }
                _ => {}
            }
        }
        if self.is("types") && self.rng.p(45) {
            // the far ends
            match t {
                "long" => { let xs = [i64::min_value(), i64::max_value(), -1, 0, 1 << 53, (1 << 53) + 1, -(1 << 62)]; return long(*self.rng.of(&xs)) }
                "double" => { let xs = [-0.0, 0.0, std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY, 5e-324, 1e22, 1.7976931348623157e308, 9007199254740993.0, 1e15, 0.1 + 0.2, -1e-7]; return dbl(*self.rng.of(&xs)) }
                "str" => { let xs = ["\n", "a\nb", "\t\"q\"", "\u{0}", "a\u{0}b", "\u{1f600}", "\\", "\\n", "'; DROP TABLE datoms; --", ":k/a", "1", "e\u{301}", " ", "?x", "%"]; return st(*self.rng.of(&xs)) }
                "kw" => { let xs = [":k/_b", ":k.x.y-z/a*b", ":k/?", ":plain", ":_p", ":K/A", ":db/ident", ":k/a+"]; return kw(*self.rng.of(&xs)) }
                "inst" => { let xs = [-62135596800000000i64, 253402300799999999, -1, 1, -999999, 4102444800000000]; return inst(*self.rng.of(&xs)) }
                "uuid" => { let xs = ["00000000-0000-0000-0000-000000000000", "00000000-0000-0000-0000-0000000000ff", "80000000-0000-0000-0000-000000000000"]; return crate::val::v("uuid", 0, *self.rng.of(&xs)) }
                _ => {}
            }
        }
        match t {
            "long" => { let xs = [0, 1, 2, 3, 3, 2, -1, 7, i64::max_value(), i64::min_value() + 1, 4294967296]; let n = if self.rng.p(85) { 6 } else { xs.len() }; long(xs[self.rng.n(n)]) }
            "double" => { let xs = [0.5, 1.5, 1.0, -2.5, 0.0, 1e300, 0.1]; dbl(*self.rng.of(&xs)) }
            "str" => { let xs = ["a", "b", "c", "ab", "", "A", "x y", "\u{e9}\u{4e2d}", "a\\b", "q'1"]; let n = if self.rng.p(80) { 4 } else { xs.len() }; st(xs[self.rng.n(n)]) }
            "kw" => { let xs = [":k/a", ":k/b", ":k/c", ":k.x/a", ":t/l1"]; kw(*self.rng.of(&xs)) }
            "bool" => bool_(self.rng.p(50)),
            "inst" => { let xs = [1514804400000000i64, 1514804400123456, 0, -1000000, -1500000]; let n = self.rng.n(5); inst(xs[n]) }
            "uuid" => { let xs = ["00000000-0000-0000-0000-000000000001", "4cb3f828-752d-497a-90c9-b1fd516d5644", "ffffffff-ffff-ffff-ffff-ffffffffffff"]; crate::val::v("uuid", 0, *self.rng.of(&xs)) }
            _ => { let es = Gen::ents(v); if es.is_empty() { rf(65536) } else { rf(*self.rng.of(&es)) } }
        }
    }
    /// A value of the attribute's type, often one the store already has.
    pub fn tval(&mut self, a: &At, v: &View) -> Val {
        if self.rng.p(35) {
            let xs: Vec<&Val> = v.db.facts.iter().filter(|f| f.1 == a.e).map(|f| &f.2).collect();
            if !xs.is_empty() { return (*self.rng.of(&xs)).clone(); }
        }
        self.raw(&a.vt, v)
    }

    fn lookup(&mut self, v: &View, ats: &[At]) -> Option<J> {
        let us: Vec<&At> = ats.iter().filter(|a| a.uniq != "n").collect();
        if us.is_empty() { return None; }
        let a = (*self.rng.of(&us)).clone();
        if self.rng.p(4) { let b = self.rng.of(ats).clone(); let x = self.raw(&b.vt, v); if b.vt != "ref" { return Some(lu(&b.kw, &x)); } }
        let x = if self.rng.p(80) {
            let xs: Vec<&Val> = v.db.facts.iter().filter(|f| f.1 == a.e).map(|f| &f.2).collect();
            if xs.is_empty() { return None; }
            (*self.rng.of(&xs)).clone()
        } else { self.raw(&a.vt, v) };
        let x = if a.vt == "ref" { let mut y = x; y.t = "long".into(); y } else { x };
        if self.rng.p(10) { Some(json!({"k": "lu", "a": {"kw": "", "n": a.e, "rev": false}, "v": x.j()})) } else { Some(lu(&a.kw, &x)) }
    }

    pub fn ep(&mut self, v: &View, ats: &[At]) -> J {
        let es = Gen::ents(v);
        let w = match self.profile.as_str() {
            "upsert" => [20, 65, 5, 3, 1, 1, 0],
            "card" | "set" => [70, 15, 5, 2, 0, 1, 1],
            "ids" => [30, 45, 3, 4, 3, 8, 5],
            "notation" => [25, 25, 25, 10, 8, 2, 2],
            _ => [45, 35, 10, 4, 3, 1, 1],
        };
        match self.rng.w(&w) {
            0 => if es.is_empty() { tmp("t1") } else { val(&long(*self.rng.of(&es))) },
            1 => { let n = self.rng.n(4); tmp(["t1", "t2", "t3", "z"][n]) }
            2 => self.lookup(v, ats).unwrap_or_else(|| tmp("t1")),
            3 => { let ids: Vec<String> = v.mem.ids.iter().filter(|x| x.1 > 40).map(|x| x.0.clone()).collect();
                if ids.is_empty() || self.rng.p(10) { val(&kw(":no/such")) } else { val(&kw(self.rng.of(&ids).as_str())) } }
            4 => json!({"k": "tx"}),
            5 => { let p = v.mem.parts.clone(); let xs = [p[1] - 1, p[1], p[1] + 1, p[0], p[2], p[2] - 1, 50, -1, 0, 268435455, 65535, 4611686018427387904]; val(&long(*self.rng.of(&xs))) }
            _ => { let ids: Vec<i64> = v.mem.ids.iter().map(|x| x.1).collect(); val(&long(*self.rng.of(&ids))) }
        }
    }

    pub fn vp(&mut self, v: &View, ats: &[At], a: &At, depth: usize) -> J {
        if self.rng.p(if self.is("types") { 18 } else { 2 }) {
            // a value of some type, which may not be the attribute's
            let ts = ["long", "double", "str", "kw", "bool", "inst", "uuid"];
            let t = *self.rng.of(&ts);
            let x = self.raw(t, v);
            return val(&x);
        }
        if a.vt == "ref" {
            let es = Gen::ents(v);
            return match self.rng.w(&[35, 35, 8, 4, 2, 1]) {
                0 if !es.is_empty() => val(&long(*self.rng.of(&es))),
                2 => self.lookup(v, ats).unwrap_or_else(|| tmp("t2")),
                3 => { let ids: Vec<String> = v.mem.ids.iter().filter(|x| x.1 > 40).map(|x| x.0.clone()).collect();
                    if ids.is_empty() { val(&kw(":db/doc")) } else { val(&kw(self.rng.of(&ids).as_str())) } }
                4 => json!({"k": "tx"}),
                5 => val(&kw(":no/such")),
                _ => { let n = self.rng.n(4); tmp(["t1", "t2", "t3", "y"][n]) }
            };
        }
        let _ = depth;
        let x = self.tval(a, v);
        val(&x)
    }

    fn mapterm(&mut self, v: &View, ats: &[At], depth: usize, nested: bool) -> J {
        let id = if nested { if self.rng.p(45) { none() } else { self.ep(v, ats) } } else if self.rng.p(30) { none() } else { self.ep(v, ats) };
        let mut kvs = vec![];
        let mut used = vec![];
        let n = 1 + self.rng.n(3);
        for _ in 0..n {
            let a = self.rng.of(ats).clone();
            if used.contains(&a.kw) { continue; }
            used.push(a.kw.clone());
            if a.vt == "ref" && self.rng.p(40) {
                // reversed
                let x = if depth < 2 && self.rng.p(25) { self.mapterm(v, ats, depth + 1, true) } else { self.ep(v, ats) };
                kvs.push(kv(apr(&a.kw), x));
                continue;
            }
            let x = if a.vt == "ref" && depth < 2 && self.rng.p(45) { self.mapterm(v, ats, depth + 1, true) }
                else if self.rng.p(if a.many { 40 } else { 3 }) {
                    let m = 1 + self.rng.n(3);
                    let xs: Vec<J> = (0..m).map(|_| if a.vt == "ref" && depth < 2 && self.rng.p(25) { self.mapterm(v, ats, depth + 1, true) } else { self.vp(v, ats, &a, depth) }).collect();
                    json!({"k": "vec", "xs": xs})
                } else { self.vp(v, ats, &a, depth) };
            kvs.push(kv(ap(&a.kw), x));
        }
        map(id, kvs)
    }

    /// A value place, now and then in a notation.
    fn xp(&mut self, v: &View, ats: &[At], a: &At) -> J {
        if !self.rng.p(if self.is("notation") { 22 } else { 3 }) { return self.vp(v, ats, a, 0); }
        if a.vt == "ref" && self.rng.p(40) { return self.mapterm(v, ats, 1, true); }
        if !a.many && self.rng.p(85) { return self.vp(v, ats, a, 0); }
        let m = self.rng.n(4);
        let xs: Vec<J> = (0..m).map(|_| if a.vt == "ref" && self.rng.p(20) { self.mapterm(v, ats, 1, true) } else { self.vp(v, ats, a, 0) }).collect();
        json!({"k": "vec", "xs": xs})
    }

    /// The attributes a profile concentrates on.
    fn focus(&mut self, ats: &[At]) -> Vec<At> {
        let p = self.profile.clone();
        let f: Vec<At> = ats.iter().filter(|a| match p.as_str() {
            "unique" => a.uniq != "n",
            "upsert" => a.uniq == "i" || a.vt == "ref",
            "card" => a.uniq == "n",
            "fts" => a.ft,
            _ => true,
        }).cloned().collect();
        if f.is_empty() || self.rng.p(20) { ats.to_vec() } else { f }
    }

    pub fn term(&mut self, v: &View) -> Vec<J> {
        let ats = Gen::attrs(v);
        if ats.is_empty() { return vec![]; }
        let foc = self.focus(&ats);
        let a = self.rng.of(&foc).clone();
        let w = match self.profile.as_str() {
            "notation" => [20, 12, 5, 50, 8, 2, 3],
            "upsert" => [60, 5, 3, 20, 3, 2, 1],
            "set" => [30, 30, 25, 3, 2, 2, 1],
            "card" => [45, 15, 18, 5, 2, 2, 5],
            "unique" => [50, 10, 10, 5, 3, 15, 1],
            _ => [50, 12, 8, 14, 5, 3, 2],
        };
        match self.rng.w(&w) {
            0 => { let e = self.ep(v, &ats); let x = self.xp(v, &ats, &a); vec![add(e, if self.rng.p(10) { json!({"kw": "", "n": a.e, "rev": false}) } else { ap(&a.kw) }, x)] }
            1 => {
                // retract something that is there
                let fs: Vec<(i64, i64, Val)> = v.db.facts.iter().filter(|f| foc.iter().any(|x| x.e == f.1)).map(|f| (f.0, f.1, f.2.clone())).collect();
                if fs.is_empty() { return vec![]; }
                let f = self.rng.of(&fs).clone();
                let k = ats.iter().find(|x| x.e == f.1).unwrap().kw.clone();
                let mut x = f.2.clone();
                if x.t == "ref" { x.t = "long".into(); }
                let mut o = vec![ret(val(&long(f.0)), ap(&k), val(&x))];
                let at = ats.iter().find(|x| x.e == f.1).unwrap();
                if self.rng.p(if self.is("notation") { 25 } else { 4 }) {
                    // several at once, in a vector
                    let mut xs: Vec<J> = v.db.facts.iter().filter(|g| g.0 == f.0 && g.1 == f.1 && g.2 != f.2).take(2).map(|g| { let mut x = g.2.clone(); if x.t == "ref" { x.t = "long".into(); } val(&x) }).collect();
                    if self.rng.p(30) { let y = self.vp(v, &ats, at, 0); xs.push(y); }
                    xs.insert(0, o[0]["v"].clone());
                    o[0]["v"] = json!({"k": "vec", "xs": xs});
                }
                if self.rng.p(12) { let y = self.vp(v, &ats, at, 0); o.push(add(val(&long(f.0)), ap(&k), y)); }
                o
            }
            2 => { let e = self.ep(v, &ats); let x = self.xp(v, &ats, &a); vec![ret(e, ap(&a.kw), x)] }
            3 => vec![self.mapterm(v, &ats, 0, false)],
            4 => {
                let rs: Vec<At> = ats.iter().filter(|x| x.vt == "ref" || self.profile == "notation").cloned().collect();
                if rs.is_empty() { return vec![]; }
                let r = self.rng.of(&rs).clone();
                let e = self.ep(v, &ats);
                let x = self.ep(v, &ats);
                vec![if self.rng.p(80) { add(e, apr(&r.kw), x) } else { ret(e, apr(&r.kw), x) }]
            }
            5 => {
                // move a unique value from one entity to another
                let fs: Vec<(i64, i64, Val)> = v.db.facts.iter().filter(|f| ats.iter().any(|x| x.e == f.1 && x.uniq != "n")).map(|f| (f.0, f.1, f.2.clone())).collect();
                if fs.is_empty() { return vec![]; }
                let f = self.rng.of(&fs).clone();
                let k = ats.iter().find(|x| x.e == f.1).unwrap().kw.clone();
                let mut x = f.2.clone();
                if x.t == "ref" { x.t = "long".into(); }
                let es = Gen::ents(v);
                let e2 = if self.rng.p(60) && !es.is_empty() { val(&long(*self.rng.of(&es))) } else { tmp("t9") };
                let mut o = vec![];
                if self.rng.p(60) { o.push(ret(val(&long(f.0)), ap(&k), val(&x))); }
                o.push(add(e2, ap(&k), val(&x)));
                o
            }
            _ => {
                // several values of one attribute of one entity
                let e = self.ep(v, &ats);
                let n = 2 + self.rng.n(2);
                (0..n).map(|_| { let x = self.vp(v, &ats, &a, 0); if self.rng.p(75) { add(e.clone(), ap(&a.kw), x) } else { ret(e.clone(), ap(&a.kw), x) } }).collect()
            }
        }
    }

    /// Changes to the schema.
    pub fn schema_terms(&mut self, v: &View) -> Vec<J> {
        let ats = Gen::attrs(v);
        self.fresh += 1;
        let newk = { let n = self.rng.n(5); format!(":n/a{}", n) };
        if ats.is_empty() || self.rng.p(18) {
            let ts = ["long", "str", "ref", "bool", "double", "kw", "inst", "uuid"];
            let t = *self.rng.of(&ts);
            let us = ["n", "n", "v", "i"];
            let u = *self.rng.of(&us);
            let idx = self.rng.p(if u == "n" { 30 } else { 85 });
            let ft = self.rng.p(if t == "str" { 30 } else { 3 });
            let comp = self.rng.p(if t == "ref" { 30 } else { 3 });
            let mut d = define(&newk, t, self.rng.p(40), u, idx, ft, comp);
            if self.rng.p(8) { d["kvs"].as_array_mut().unwrap().push(kv(ap(":db/noHistory"), val(&bool_(self.rng.p(85))))); }
            if self.rng.p(6) { d["kvs"].as_array_mut().unwrap().remove(1); }
            else if self.rng.p(8) { d["kvs"].as_array_mut().unwrap().remove(2); }
            if self.rng.p(15) { d["id"] = tmp("a1"); }
            if self.rng.p(5) { let x = self.rng.of(&ats.iter().map(|a| a.e).chain(vec![65536]).collect::<Vec<_>>()).clone(); d["id"] = val(&long(x)); }
            return vec![d];
        }
        let a = self.rng.of(&ats).clone();
        let e = if self.rng.p(50) { val(&kw(&a.kw)) } else { val(&long(a.e)) };
        let uk = |u: &str| if u == "i" { ":db.unique/identity" } else { ":db.unique/value" };
        match self.rng.w(&[10, 10, 10, 12, 10, 8, 8, 10, 6, 6, 6, 4, 4, 4, 3]) {
            0 => vec![add(e, ap(":db/index"), val(&bool_(!a.idx)))],
            1 => vec![add(e, ap(":db/cardinality"), val(&kw(if a.many { ":db.cardinality/one" } else { ":db.cardinality/many" })))],
            2 => { let mut o = vec![add(e.clone(), ap(":db/unique"), val(&kw(uk(if a.uniq == "i" { "v" } else { "i" }))))]; if !a.idx && self.rng.p(80) { o.push(add(e, ap(":db/index"), val(&bool_(true)))); } o }
            3 => { if a.uniq == "n" { vec![ret(e, ap(":db/unique"), val(&kw(":db.unique/value")))] } else { let u = if self.rng.p(90) { a.uniq.clone() } else { "v".into() }; vec![ret(e, ap(":db/unique"), val(&kw(uk(&u))))] } }
            4 => vec![add(e, ap(":db/ident"), val(&kw(&newk)))],
            5 => vec![add(e, ap(":db/isComponent"), val(&bool_(!a.comp)))],
            6 => vec![ret(e, ap(":db/isComponent"), val(&bool_(a.comp)))],
            7 => {
                // retract the whole attribute, perhaps incompletely, perhaps with its values
                let mut o = vec![ret(e.clone(), ap(":db/ident"), val(&kw(&a.kw))), ret(e.clone(), ap(":db/valueType"), val(&kw(vt_kw(&a.vt)))),
                    ret(e.clone(), ap(":db/cardinality"), val(&kw(if a.many { ":db.cardinality/many" } else { ":db.cardinality/one" })))];
                if a.uniq != "n" && self.rng.p(85) { o.push(ret(e.clone(), ap(":db/unique"), val(&kw(uk(&a.uniq))))); }
                if a.idx && self.rng.p(85) { o.push(ret(e.clone(), ap(":db/index"), val(&bool_(true)))); }
                if a.ft && self.rng.p(85) { o.push(ret(e.clone(), ap(":db/fulltext"), val(&bool_(true)))); }
                if a.nh && self.rng.p(85) { o.push(ret(e.clone(), ap(":db/noHistory"), val(&bool_(true)))); }
                if a.comp && self.rng.p(85) { o.push(ret(e.clone(), ap(":db/isComponent"), val(&bool_(true)))); }
                if self.rng.p(25) { let i = self.rng.n(o.len()); o.remove(i); }
                o
            }
            8 => vec![add(e, ap(":db/valueType"), val(&kw(":db.type/string")))],
            9 => vec![add(e, ap(":db/fulltext"), val(&bool_(!a.ft)))],
            10 => {
                // swap two idents, or move one
                let b = self.rng.of(&ats).clone();
                if b.e == a.e { return vec![]; }
                if self.rng.p(50) { vec![add(val(&long(a.e)), ap(":db/ident"), val(&kw(&b.kw))), add(val(&long(b.e)), ap(":db/ident"), val(&kw(&a.kw)))] }
                else { vec![add(val(&long(a.e)), ap(":db/ident"), val(&kw(&b.kw))), add(val(&long(b.e)), ap(":db/ident"), val(&kw(&newk)))] }
            }
            11 => vec![ret(e, ap(":db/index"), val(&bool_(a.idx)))],
            12 => { let x = { let es = Gen::ents(v); if es.is_empty() { tmp("i1") } else { val(&long(*self.rng.of(&es))) } }; vec![add(x, ap(":db/ident"), val(&kw(&newk)))] }
            13 => vec![add(e.clone(), ap(":db/noHistory"), val(&bool_(!a.nh))), add(e, ap(":db/doc"), val(&st("d")))],
            _ => vec![ret(e, ap(":db/noHistory"), val(&bool_(a.nh)))],
        }
    }

    /// Several temporary ids that one transaction makes out to be the same entity (or nearly).
    fn same_identity(&mut self, v: &View) -> Vec<J> {
        let ats = Gen::attrs(v);
        let is: Vec<At> = ats.iter().filter(|a| a.uniq == "i" && a.vt != "ref").cloned().collect();
        let qs: Vec<At> = ats.iter().filter(|a| a.uniq == "i" && a.vt == "ref").cloned().collect();
        if is.is_empty() { return vec![]; }
        let names = ["t1", "t2", "t3", "t4", "z"];
        let k = 2 + self.rng.n(4);
        let a = self.rng.of(&is).clone();
        let x = self.tval(&a, v);
        let mut ts = vec![];
        for i in 0..k {
            if self.rng.p(88) { ts.push(add(tmp(names[i]), ap(&a.kw), val(&x))); }
            else if !qs.is_empty() { let q = self.rng.of(&qs).clone(); let n = self.rng.n(k); ts.push(add(tmp(names[i]), ap(&q.kw), tmp(names[n]))); }
            else { let b = self.rng.of(&is).clone(); let y = self.tval(&b, v); ts.push(add(tmp(names[i]), ap(&b.kw), val(&y))); }
        }
        // a second reason to be one, or to be a certain one
        if self.rng.p(35) {
            let b = self.rng.of(&is).clone();
            let y = self.tval(&b, v);
            for i in 0..k { if self.rng.p(50) { ts.push(add(tmp(names[i]), ap(&b.kw), val(&y))); } }
        }
        if !qs.is_empty() && self.rng.p(40) {
            let q = self.rng.of(&qs).clone();
            for i in 0..k { if self.rng.p(40) { ts.push(add(tmp(["y1", "y2"][i % 2]), ap(&q.kw), tmp(names[i]))); } }
        }
        // and something to say about each of them
        for i in 0..k {
            if self.rng.p(55) { let b = self.rng.of(&ats).clone(); let y = self.vp(v, &ats, &b, 0); ts.push(add(tmp(names[i]), ap(&b.kw), y)); }
        }
        if self.rng.p(60) { for i in (1..ts.len()).rev() { let j = self.rng.n(i + 1); ts.swap(i, j); } }
        ts
    }

    pub fn gen_tx(&mut self, v: &View) -> J {
        let mut ts = vec![];
        if self.rng.p(if self.is("upsert") { 18 } else if self.is("unique") || self.is("ids") || self.is("sync") { 4 } else { 1 }) {
            let t = self.same_identity(v);
            if !t.is_empty() { return tx(t); }
        }
        let schema_pct = match self.profile.as_str() { "schema" => 60, "vocab" => 45, "time" => 25, "sync" => 2, "fts" => 0, _ => 6 };
        if self.rng.p(schema_pct) {
            ts.extend(self.schema_terms(v));
            if self.rng.p(15) { ts.extend(self.schema_terms(v)); }
            if self.rng.p(20) { ts.extend(self.term(v)); }
        } else {
            let n = 1 + self.rng.n(if self.is("upsert") { 7 } else { 5 });
            for _ in 0..n { ts.extend(self.term(v)); }
        }
        if self.rng.p(if self.is("report") { 25 } else { 2 }) {
            let xs = [1514804400000000i64, 1700000000000000, 4000000000000000];
            let x = inst(*self.rng.of(&xs));
            ts.push(add(json!({"k": "tx"}), ap(":db/txInstant"), val(&x)));
            if self.rng.p(10) { ts.push(add(json!({"k": "tx"}), ap(":db/txInstant"), val(&inst(0)))); }
        }
        if self.rng.p(if self.is("report") { 25 } else { 3 }) {
            let ats: Vec<At> = Gen::attrs(v);
            if !ats.is_empty() { let a = self.rng.of(&ats).clone(); let x = self.vp(v, &ats, &a, 0); ts.push(add(json!({"k": "tx"}), ap(&a.kw), x)); }
        }
        let n = ts.len();
        if n > 1 && self.rng.p(50) { let i = self.rng.n(n); let j = self.rng.n(n); ts.swap(i, j); }
        tx(ts)
    }

    pub fn setup(&mut self) -> Vec<J> {
        let groups: &[&str] = match self.profile.as_str() {
            "unique" => &["l", "i", "u", "q", "r"],
            "upsert" => &["i", "q", "r", "u", "l"],
            "card" => &["l", "s", "v", "r", "f"],
            "set" => &["l", "s", "v", "r", "u"],
            "types" => &["l", "s", "v", "r", "f", "u"],
            "notation" => &["r", "c", "q", "i", "l", "s"],
            "schema" => &["l", "s", "i", "u", "r", "c"],
            "fts" => &["f", "s", "l", "r"],
            "find" => &["l", "s", "v", "r", "i"],
            "cache" => &["l", "s", "v", "r", "i", "u", "f"],
            _ => &["l", "s", "i", "u", "v", "r", "c", "q", "f"],
        };
        let mut cand: Vec<_> = POOL.iter().filter(|p| groups.contains(&p.0)).collect();
        while cand.len() > (if self.profile == "cache" && !self.doors { 5 } else { 9 }) { let i = self.rng.n(cand.len()); cand.remove(i); }
        let n = self.rng.n(cand.len());
        cand.rotate_left(n);
        vec![tx(cand.iter().map(|p| define(p.1, p.2, p.3, p.4, p.5, p.6, p.7)).collect())]
    }

    fn builder_tx(&mut self, v: &View) -> J {
        // the programmatic route: typed values, places given explicitly
        let ats = Gen::attrs(v);
        let mut ts = vec![];
        let n = 1 + self.rng.n(4);
        for _ in 0..n {
            if ats.is_empty() { break; }
            let a = self.rng.of(&ats).clone();
            let e = self.ep(v, &ats);
            let fix_lu = |mut p: J| { if p["k"] == "lu" { let k = p["a"]["kw"].as_str().unwrap().to_string(); let n = p["a"]["n"].as_i64().unwrap();
                if let Some(b) = ats.iter().find(|b| b.kw == k || b.e == n) { if b.vt == "ref" { p["v"]["t"] = json!("ref"); } } } p };
            let e = fix_lu(e);
            let mut x = self.vp(v, &ats, &a, 0);
            x = fix_lu(x);
            if a.vt == "ref" && x["k"] == "val" {
                if x["v"]["t"] == "long" { x["v"]["t"] = json!("ref"); if self.rng.p(50) { x["k"] = json!("ent"); } }
                else if x["v"]["t"] == "str" || x["v"]["t"] == "kw" { if self.rng.p(95) { x["k"] = json!("ent"); } }
            }
            let rev = a.vt == "ref" && self.rng.p(10);
            if rev { let y = self.ep(v, &ats); x = fix_lu(y); if x["k"] == "val" { if x["v"]["t"] == "long" { x["v"]["t"] = json!("ref"); } x["k"] = json!("ent"); } }
            let a = if rev { apr(&a.kw) } else { ap(&a.kw) };
            ts.push(if self.rng.p(75) { add(e, a, x) } else { ret(e, a, x) });
        }
        json!({"k": "tx", "via": "builder", "terms": ts})
    }

    /// Now and then something fails in the middle of an operation.
    fn faulty(&mut self, v: &View, mut op: J) -> J {
        let pct = match self.profile.as_str() { "fault" => 40, "time" | "sync" => 6, _ => 0 };
        if ["tx", "commit", "q", "pull", "cache", "move", "sync"].contains(&op["k"].as_str().unwrap()) && op["crash"].is_null() && self.rng.p(pct) {
            let _ = v;
            op["fault"] = if self.rng.p(80) { let b = 1u64 << (3 + self.rng.n(13)); json!({"steps": b + self.rng.next() % b}) } else { json!({"pages": self.rng.n(3)}) };
        }
        op
    }

    fn step_op(&mut self, v: &View) -> J {
        let p = self.profile.clone();
        if v.in_ip {
            self.ipn += 1;
            let stop = if self.ipn > 6 { 60 } else { 14 };
            if self.rng.p(stop) { let k = *self.rng.of(&["commit", "commit", "rollback", "drop"]); return json!({"k": k}); }
            match p.as_str() {
                "txn" | "observe" | "cache" | "fault" => {
                    match self.rng.w(&[70, 12, 12, 4]) {
                        1 => { let n = format!("s{}", self.rng.n(3)); self.sps.push(n.clone()); return json!({"k": "sp", "name": n}); }
                        2 if !self.sps.is_empty() => { let i = self.rng.n(self.sps.len()); let n = self.sps[i].clone(); self.sps.truncate(i + 1); return json!({"k": "rb", "name": n}); }
                        3 if !self.sps.is_empty() => { let i = self.rng.n(self.sps.len()); let n = self.sps[i].clone(); self.sps.truncate(i); return json!({"k": "rel", "name": n}); }
                        _ => {}
                    }
                }
                _ => {}
            }
            if let Some(op) = crate::gen2::op(self, v) { return op; }
            if self.rng.p(10) { return self.builder_tx(v); }
            return self.gen_tx(v);
        }
        if let Some(op) = crate::gen2::op(self, v) { return op; }
        let (ipp, rep) = match p.as_str() { "txn" | "fault" => (30, 4), "durable" => (12, 25), "cache" | "observe" => (25, 4), "pull" | "query" | "find" | "fts" | "txlog" => (12, 2), _ => (7, 2) };
        if self.rng.p(ipp) { self.ipn = 0; self.sps.clear(); return json!({"k": "begin"}); }
        if v.file && self.rng.p(rep) { return json!({"k": "reopen"}); }
        if p == "durable" && v.file && self.rng.p(40) { let mut t = self.gen_tx(v); t["crash"] = json!(true); t["stride"] = json!(1 + self.rng.n(9)); return t; }
        if self.rng.p(if p == "builder" { 70 } else { 5 }) { return self.builder_tx(v); }
        self.gen_tx(v)
    }
}

impl Source for Gen {
    fn next(&mut self, v: &View) -> Option<J> {
        if let Some(op) = self.queue.pop_front() { return Some(op); }
        if self.ended {
            if self.traces == 0 { return None; }
            self.traces -= 1;
            self.ended = false;
            self.step = 0;
            self.lastvoc = J::Null;
            self.cached.clear();
            if self.doors { self.profile = self.rng.of(&["find", "query", "cache", "observe", "types", "pull", "mixed", "txn"]).to_string(); }
            let file = match self.profile.as_str() { "txn" | "durable" => true, "fault" => self.rng.p(60), "observe" => self.rng.p(40), "sync" => false, _ => self.rng.p(10) };
            let q = self.setup();
            self.queue.extend(q);
            let q = crate::gen2::setup(self);
            self.queue.extend(q);
            let vars = match self.profile.as_str() {
                "query" | "find" | "txlog" | "cache" | "pull" => 0,
                "fts" => if self.rng.p(40) { 30 + self.rng.n(30) } else { 0 },
                _ => if self.rng.p(40) { 6 + self.rng.n(30) } else { 0 },
            };
            let mut op = json!({"k": "reset", "file": file, "vars": vars, "profile": self.profile, "rank": crate::gen2::ranks()});
            if self.doors { crate::doors::choose(&mut self.rng, false, &mut op); }
            return Some(op);
        }
        let dead = v.last["panic"] == true;
        if (self.step >= self.steps || dead) && !v.in_ip { self.ended = true; return Some(json!({"k": "end"})); }
        if dead { return None; }
        self.step += 1;
        let mut op = if self.doors && self.rng.p(22) { crate::doors::tx_op(self, v) } else { self.step_op(v) };
        if self.doors { crate::doors::choose(&mut self.rng, v.in_ip, &mut op); }
        if self.is("edn") && (op["k"] == "tx" || op["k"] == "q") && self.rng.p(75) { op["lay"] = json!(1 + self.rng.n(1 << 30)); }
        Some(self.faulty(v, op))
    }
}

pub struct Replay { pub ops: VecDeque<J> }
impl Source for Replay {
    fn next(&mut self, _v: &View) -> Option<J> { self.ops.pop_front() }
}
