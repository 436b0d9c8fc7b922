-------------------------------- MODULE MTx --------------------------------
(* What a transaction means.

   A database S is a record [facts, attrs, ids, parts]: the current facts, the schema they state
   (attrs: entid -> properties, ids: keyword -> entid) and the next entid of each partition.

   A transaction is a sequence of terms in abstract syntax:
     [k |-> "add" or "ret", e, a, v]     one assertion or retraction
     [k |-> "map", id, kvs]              map notation
   Places are [k |-> "val", v], [k |-> "ent", v], [k |-> "lu", a, v] (lookup ref), [k |-> "tx"],
   [k |-> "vec", xs], [k |-> "map", ...], [k |-> "none"]; an attribute place is [kw, n, rev].

   The meaning is given in the stages the code has: notation is reduced to plain terms, temporary
   ids are resolved or allocated, the terms are checked, and what they change is computed.         *)
EXTENDS MSchema

Tmp(s)  == Val("tmp", 0, s)
ITmp(n) == Val("itmp", n, "")
IsTmp(x) == x.t \in {"tmp", "itmp"}

OkX(x)   == [x |-> x, errs |-> {}]
ErrX(l)  == [x |-> Ref(0), errs |-> {l}]

TxId(S) == S.parts[3]

AttrEnt(S, ap) == IF ap.kw # "" THEN (IF ap.kw \in DOMAIN S.ids THEN S.ids[ap.kw] ELSE -1) ELSE ap.n
AttrErrs(S, ap) ==
  LET a == AttrEnt(S, ap) IN
  IF a = -1 THEN {"notation:ident"} ELSE IF a \notin DOMAIN S.attrs THEN {"notation:attr"} ELSE {}

\* The value stored for a value written: minus zero is zero.
Canon(v) == IF v = Val("double", 0, "-0.0") THEN Val("double", 0, "") ELSE v
\* A value given for an attribute of type vt.  What is not a number is not a value.
Coerce(S, via, vt, v) ==
  IF v = Val("double", 0, "NaN") /\ vt = "double" THEN ErrX("type:nan")
  ELSE IF via = "builder" THEN (IF v.t = vt THEN OkX(Canon(v)) ELSE ErrX("type"))
  ELSE IF vt = "ref" THEN
         CASE v.t = "long" -> OkX(Val("ref", v.n, v.s))
           [] v.t = "kw"   -> IF v.s \in DOMAIN S.ids THEN OkX(Ref(S.ids[v.s])) ELSE ErrX("notation:ident")
           [] OTHER        -> ErrX("type")
       ELSE IF v.t = vt THEN OkX(Canon(v)) ELSE ErrX("type")

Lookup(S, via, p) ==
  LET a == AttrEnt(S, p.a) IN
  IF AttrErrs(S, p.a) # {} THEN [x |-> Ref(0), errs |-> AttrErrs(S, p.a)]
  ELSE IF S.attrs[a].uniq = "n" THEN ErrX("notation:lookup-attr")
  ELSE LET c == Coerce(S, via, S.attrs[a].vt, p.v) IN
       IF c.errs # {} THEN c
       ELSE LET h == HoldersOf(S.facts, a, c.x) IN
            IF h = {} THEN ErrX("notation:lookup") ELSE OkX(Ref(CHOOSE e \in h : TRUE))

ExistingEnt(S, v) ==
  IF v.t = "kw" THEN (IF v.s \in DOMAIN S.ids THEN OkX(Ref(S.ids[v.s])) ELSE ErrX("notation:ident"))
  ELSE IF v.s = "" /\ (Allocated(S.parts, v.n) \/ v.n = TxId(S)) THEN OkX(Ref(v.n))
  ELSE [x |-> Val("ref", v.n, v.s), errs |-> {"entid"}]

\* An entity place; `n` numbers the anonymous entities of maps.
EntPlace(S, via, p, n) ==
  CASE p.k = "none" -> OkX(ITmp(n))
    [] p.k \in {"val", "ent"} -> IF p.v.t = "str" THEN OkX(Tmp(p.v.s))
                                 ELSE IF p.v.t \in {"long", "ref", "kw"} THEN ExistingEnt(S, p.v)
                                 ELSE ErrX("notation:place")
    [] p.k = "lu" -> Lookup(S, via, p)
    [] p.k = "tx" -> OkX(Ref(TxId(S)))
    [] OTHER -> ErrX("notation:place")

\* The value place of a reversed attribute, which names an entity.
RevPlace(S, via, p) ==
  IF p.k \in {"vec", "map"} THEN ErrX("notation:reverse")
  ELSE IF p.k = "val" /\ via = "builder" /\ p.v.t # "ref" THEN ErrX("type")
  ELSE IF p.k = "val" /\ p.v.t \notin {"long", "ref", "kw", "str"} THEN ErrX("type")
  ELSE EntPlace(S, via, p, 0)

\* The value place of a forward attribute of type vt, when it is an atom.
AtomPlace(S, via, vt, p) ==
  CASE p.k = "val" -> IF vt = "ref" /\ p.v.t = "str" THEN OkX(Tmp(p.v.s))
                      ELSE Coerce(S, via, vt, p.v)
    [] p.k = "ent" -> IF p.v.t = "str" THEN OkX(Tmp(p.v.s))
                      ELSE IF vt # "ref" THEN ErrX("type")
                      ELSE IF p.v.t = "kw" THEN Coerce(S, "text", "ref", p.v)
                      ELSE OkX(Val("ref", p.v.n, p.v.s))
    [] p.k = "lu" -> IF vt # "ref" THEN ErrX("type") ELSE Lookup(S, via, p)
    [] p.k = "tx" -> IF vt # "ref" THEN ErrX("type") ELSE OkX(Ref(TxId(S)))
    [] OTHER -> ErrX("notation:place")

Plain(op, e, a, v) == [op |-> op, e |-> e, a |-> a, v |-> v]

\* Accumulator of the reduction: plain terms, reasons to refuse, number of anonymous entities.
Acc0 == [ts |-> {}, errs |-> {}, n |-> 0]
AddErrs(acc, es) == [acc EXCEPT !.errs = @ \cup es]
AddTerm(acc, op, e, a, v) ==
  IF e.errs \cup v.errs # {} THEN AddErrs(acc, e.errs \cup v.errs)
  ELSE [acc EXCEPT !.ts = @ \cup {Plain(op, e.x, a, v.x)}]

RECURSIVE Reduce1(_, _, _, _, _, _, _), ReduceKvs(_, _, _, _, _, _), ReduceXs(_, _, _, _, _, _, _)

\* One assertion or retraction about the entity `e` (already resolved).
Reduce1(S, via, op, e, ap, p, acc) ==
  LET a == AttrEnt(S, ap)
      ae == AttrErrs(S, ap)
  IN IF ae # {} THEN AddErrs(acc, ae \cup e.errs)
     ELSE IF ap.rev THEN
       IF S.attrs[a].vt # "ref" THEN AddErrs(acc, {"notation:reverse"})
       ELSE AddTerm(acc, op, RevPlace(S, via, p), a, e)
     ELSE CASE p.k = "vec" ->
                 IF ~S.attrs[a].many THEN AddErrs(acc, {"notation:vector"})
                 ELSE ReduceXs(S, via, op, e, ap, p.xs, acc)
            [] p.k = "map" ->
                 IF op # "add" \/ S.attrs[a].vt # "ref" THEN AddErrs(acc, {"notation:map"})
                 ELSE LET n1 == acc.n + 1
                          id == EntPlace(S, via, p.id, n1)
                          Anchors(kv) == \/ kv.a.rev
                                         \/ LET b == AttrEnt(S, kv.a) IN b \in DOMAIN S.attrs /\ S.attrs[b].uniq = "i"
                          reachable == p.id.k # "none" \/ S.attrs[a].comp \/ \E i \in DOMAIN p.kvs : Anchors(p.kvs[i])
                          acc1 == [acc EXCEPT !.n = n1]
                          acc2 == IF reachable THEN acc1 ELSE AddErrs(acc1, {"notation:dangling"})
                          acc3 == ReduceKvs(S, via, id, p.kvs, 1, acc2)
                      IN AddTerm(acc3, op, e, a, id)
            [] OTHER -> AddTerm(acc, op, e, a, AtomPlace(S, via, S.attrs[a].vt, p))

ReduceKvs(S, via, e, kvs, i, acc) ==
  IF i > Len(kvs) THEN acc
  ELSE ReduceKvs(S, via, e, kvs, i + 1, Reduce1(S, via, "add", e, kvs[i].a, kvs[i].v, acc))

ReduceXs(S, via, op, e, ap, xs, acc) ==
  IF xs = <<>> THEN acc
  ELSE ReduceXs(S, via, op, e, ap, Tail(xs), Reduce1(S, via, op, e, ap, Head(xs), acc))

RECURSIVE Reduce(_, _, _, _)
Reduce(S, via, terms, acc) ==
  IF terms = <<>> THEN acc
  ELSE LET t == Head(terms)
           n1 == acc.n + 1
           acc1 == [acc EXCEPT !.n = n1]
       IN Reduce(S, via, Tail(terms),
            IF t.k = "map"
            THEN LET id == EntPlace(S, via, t.id, n1) IN ReduceKvs(S, via, id, t.kvs, 1, AddErrs(acc1, id.errs))
            \* As text, a reversed list form is the forward form with its places exchanged.
            ELSE IF via = "text" /\ t.a.rev
            THEN Reduce1(S, via, t.k, EntPlace(S, via, t.v, n1), [t.a EXCEPT !.rev = FALSE], t.e, acc1)
            ELSE Reduce1(S, via, t.k, EntPlace(S, via, t.e, n1), t.a, t.v, acc1))

-----------------------------------------------------------------------------
(* Temporary ids.  A tempid that is said to have the value of a unique-identity attribute that an
   existing entity has, is that entity; a tempid given as that value may itself be resolved so.    *)

TmpsOf(ts) == {t.e : t \in {u \in ts : IsTmp(u.e)}} \cup {t.v : t \in {u \in ts : IsTmp(u.v)}}

Sub(m, x) == IF x \in DOMAIN m THEN m[x] ELSE x

\* Candidates <<tempid, entity>> given what is resolved so far.
Candidates(S, ts, m) ==
  UNION { LET v == Sub(m, t.v) IN
          IF IsTmp(v) THEN {} ELSE {<<t.e, Ref(h)>> : h \in HoldersOf(S.facts, t.a, v)}
          : t \in {u \in ts : u.op = "add" /\ IsTmp(u.e) /\ S.attrs[u.a].uniq = "i"} }

RECURSIVE UpsertFix(_, _, _)
UpsertFix(S, ts, m) ==
  LET C == Candidates(S, ts, m)
      D == {c[1] : c \in C}
      m1 == m @@ [x \in D |-> (CHOOSE c \in C : c[1] = x)[2]]
  IN IF \E c, d \in C : c[1] = d[1] /\ c[2] # d[2] THEN [m |-> m1, errs |-> {"upsert:conflict"}]
     ELSE IF DOMAIN m1 = DOMAIN m THEN [m |-> m, errs |-> {}]
     ELSE UpsertFix(S, ts, m1)

EmptyMap == [x \in {} |-> x]

\* The classes of tempids that denote one new entity: those said to have the same value of the same
\* unique-identity attribute.
RECURSIVE Closure(_, _, _)
Closure(E, X, done) ==
  LET Y == X \cup UNION {e \in E : e \cap X # {}} IN IF Y = X THEN X ELSE Closure(E, Y, done)

(* The result of resolution: m maps every resolved tempid to an entity, fresh is the set of classes
   of tempids that are allocated, and errs the reasons to refuse.                                  *)
Resolve(S, ts) ==
  LET up == UpsertFix(S, ts, EmptyMap)
      m == up.m
      left == {t \in ts : IsTmp(Sub(m, t.e)) \/ IsTmp(Sub(m, t.v))}
      ladd == {t \in left : t.op = "add"}
      need == {x \in TmpsOf(ladd) : x \notin DOMAIN m}
      ident == {t \in ladd : t.e \in need /\ S.attrs[t.a].uniq = "i"}
      edges == {{t.e, u.e} : t \in ident, u \in ident} \cap
               {{t[1], t[2]} : t \in {<<x.e, y.e>> : x \in ident, y \in ident}}
      same == {p \in edges : \E t, u \in ident : p = {t.e, u.e} /\ t.a = u.a /\ Sub(m, t.v) = Sub(m, u.v)}
      classes == {Closure(same, {x}, {}) : x \in need}
      unres == {x \in TmpsOf({t \in ts : t.op = "ret"}) : x \notin DOMAIN m /\ x \notin need}
  IN [m |-> m, fresh |-> classes, need |-> need,
      errs |-> up.errs \cup (IF unres # {} THEN {"upsert:retract-tempid"} ELSE {})]

ClassOf(classes, x) == CHOOSE c \in classes : x \in c

\* An arbitrary assignment of the fresh entids to the classes.
RECURSIVE Number(_, _)
Number(classes, n) ==
  IF classes = {} THEN EmptyMap
  ELSE LET c == CHOOSE x \in classes : TRUE IN (c :> n) @@ Number(classes \ {c}, n + 1)

\* The complete map of tempids to entities, given the entid of each class.
Assignment(res, num) == res.m @@ [x \in res.need |-> Ref(num[ClassOf(res.fresh, x)])]

-----------------------------------------------------------------------------
(* From resolved terms to their effect. *)

Triples(ts, asg, op) == {<<Sub(asg, t.e).n, t.a, Sub(asg, t.v)>> : t \in {u \in ts : u.op = op}}

CheckTerms(S, A, R) ==
  (IF \E x \in A \cup R : x[3].t # S.attrs[x[2]].vt THEN {"type"} ELSE {})
  \cup (IF \E x, y \in A : x[1] = y[1] /\ x[2] = y[2] /\ x[3] # y[3] /\ ~S.attrs[x[2]].many THEN {"card"} ELSE {})
  \cup (IF A \cap R # {} THEN {"conflict"} ELSE {})

\* What assertions A and retractions R change: only what is not so already.
Effect(S, A, R) ==
  LET cur == EAVs(S.facts)
      effA == {x \in A : x \notin cur}
      repl == UNION {{<<x[1], x[2], w>> : w \in ValuesOf(S.facts, x[1], x[2])}
                     : x \in {y \in effA : ~S.attrs[y[2]].many}}
  IN [add |-> effA, ret |-> {x \in R : x \in cur} \cup repl]

\* The facts after an effect, in transaction tx.
After(F, eff, tx) ==
  {f \in F : EAV(f) \notin eff.ret} \cup {<<x[1], x[2], x[3], tx>> : x \in eff.add}

\* Keywords without a namespace cannot be stored.  (Those that histories use.)
PlainKws == {Kw(":plain"), Kw(":_p")}

UniqueErrs(S, eff, G) ==
  IF \E x \in eff.add : S.attrs[x[2]].uniq # "n" /\ \E f \in G : f[2] = x[2] /\ f[3] = x[3] /\ f[1] # x[1]
  THEN {"unique"} ELSE {}

LogOf(eff, tx) ==
  {<<tx, x[1], x[2], x[3], TRUE, 0>> : x \in eff.add} \cup {<<tx, x[1], x[2], x[3], FALSE, 0>> : x \in eff.ret}

(* The transaction's terms with every tempid resolved: errs, A, R.  `inst` is the time given to the
   transaction if it does not state its own.                                                       *)
WithInstant(S, A, inst) ==
  IF \E x \in A : x[1] = TxId(S) /\ x[2] = DbTxInstant THEN A ELSE A \cup {<<TxId(S), DbTxInstant, inst>>}

Judge(S, A0, R, inst) ==
  LET c == CheckTerms(S, A0, R) IN
  IF c # {} THEN [errs |-> c, eff |-> [add |-> {}, ret |-> {}], facts |-> S.facts]
  ELSE LET A == WithInstant(S, A0, inst)
           eff == Effect(S, A, R)
           G == After(S.facts, eff, TxId(S))
           meta == \E x \in eff.add \cup eff.ret : x[2] \in MetaAttrs
       IN [errs |-> UniqueErrs(S, eff, G) \cup (IF \E x \in eff.add : x[3] \in PlainKws THEN {"type:keyword"} ELSE {}) \cup
                    (IF meta THEN SchemaErrs(S.attrs, eff.add, eff.ret, G) ELSE {}),
           eff |-> eff, facts |-> G]

\* Everything before entids are given out.
Prepare(S, via, terms) ==
  LET red == Reduce(S, via, terms, Acc0)
      res == Resolve(S, red.ts)
  IN IF red.errs # {} THEN [errs |-> red.errs, ts |-> {}, res |-> [m |-> EmptyMap, fresh |-> {}, need |-> {}, errs |-> {}]]
     ELSE [errs |-> res.errs, ts |-> red.ts, res |-> res]

\* The outcome under the assignment `num` of entids to the classes of new tempids.
Outcome(S, prep, num, inst) ==
  IF prep.errs # {} THEN [errs |-> prep.errs, eff |-> [add |-> {}, ret |-> {}], facts |-> S.facts]
  ELSE LET asg == Assignment(prep.res, num)
       IN Judge(S, Triples(prep.ts, asg, "add"), Triples(prep.ts, asg, "ret"), inst)

NextParts(S, prep) == <<S.parts[1], S.parts[2] + Cardinality(prep.res.fresh), S.parts[3] + 1>>

\* The database after facts G, with the schema they state.
DbOf(G, parts) == [facts |-> G, attrs |-> AttrsOf(G), ids |-> IdentsOf(G), parts |-> parts]
NextDb(S, prep, out) ==
  IF \E x \in out.eff.add \cup out.eff.ret : x[2] \in MetaAttrs
  THEN DbOf(out.facts, NextParts(S, prep))
  ELSE [S EXCEPT !.facts = out.facts, !.parts = NextParts(S, prep)]
=============================================================================
