------------------------------ MODULE Conform ------------------------------
(* Conformance of what the real store does with the specification.

   An event is one operation of a recorded history: the operation, what it returned, and how the observed state
   (facts, log, SQL views, in-memory metadata, and what a second connection sees) changed.  For each
   event the specification computes, from the state observed before it, what the operation must
   return and which state it must leave; every disagreement is given a label and reported.  The next
   event is judged from the state observed, so one disagreement is reported once.                  *)
EXTENDS MQuery, MWatch, MSync, MVocab

Edn == INSTANCE MEdn

-----------------------------------------------------------------------------
\* Observed state.

PairsFn(xs) == [k \in {x[1] : x \in Set(xs)} |-> (CHOOSE x \in Set(xs) : x[1] = k)[2]]
AttrFn(xs) ==
  [e \in {x.e : x \in Set(xs)} |->
     LET x == CHOOSE y \in Set(xs) : y.e = e
     IN [vt |-> x.vt, many |-> x.many, uniq |-> x.uniq, idx |-> x.idx, ft |-> x.ft, comp |-> x.comp, nh |-> x.nh]]
New(opt, old, F(_)) == IF opt = <<>> THEN old ELSE F(opt[1])
Id(x) == x

EmptyS == [facts |-> {}, attrs |-> EmptyMap, ids |-> EmptyMap, parts |-> <<0, 0, 0>>]
EmptyObs == [S |-> EmptyS, log |-> {}, eids |-> {}, sids |-> {}, ssch |-> {}, flags |-> {}, comps |-> {}, sparts |-> <<0, 0, 0>>, hw |-> 0]

\* What is observed after event e, given what was observed before it.
Observe(o, e) ==
  [S |-> [facts |-> (o.S.facts \ Set(e.d.fm)) \cup Set(e.d.fp),
          attrs |-> New(e.m.sch, o.S.attrs, AttrFn),
          ids   |-> New(e.m.ids, o.S.ids, PairsFn),
          parts |-> e.m.parts],
   log   |-> (o.log \ Set(e.d.lm)) \cup Set(e.d.lp),
   eids  |-> New(e.m.eids, o.eids, Set),
   sids  |-> New(e.d.sids, o.sids, Set),
   ssch  |-> New(e.d.ssch, o.ssch, Set),
   flags |-> New(e.d.flags, o.flags, Set),
   comps |-> Set(e.m.comps),
   sparts |-> e.d.sparts,
   \* one more than the greatest entid given out (a specification variable)
   hw |-> IF o.hw = 0 THEN e.m.parts[2] ELSE o.hw]

Init0 == [o |-> EmptyObs, base |-> EmptyObs, outside |-> [facts |-> {}, log |-> {}],
          ip |-> FALSE, sps |-> <<>>, w |-> NoWatch, dead |-> FALSE, cov |-> {}, n |-> 0,
          \* the remote log, how much of it this store knows, and the other stores
          R |-> <<>>, k |-> 0, cur |-> 0, reps |-> EmptyMap, over |-> FALSE, gone |-> FALSE]

SetMin2(a, b) == IF a < b THEN a ELSE b
L(c, l) == IF c THEN {} ELSE {l}

-----------------------------------------------------------------------------
\* What holds of every observed state (checked where the event may have changed it).

FlagsOk(o) ==
  \A f \in o.flags : f[1] \in DOMAIN o.S.attrs =>
    LET p == o.S.attrs[f[1]] IN
    f = <<f[1], IF p.idx \/ p.uniq # "n" THEN 1 ELSE 0, IF p.vt = "ref" THEN 1 ELSE 0,
          IF p.ft THEN 1 ELSE 0, IF p.uniq # "n" THEN 1 ELSE 0>>

StateLabels(p, o, e) ==
  LET touched == {f[2] : f \in Set(e.d.fp)}
      meta == \/ \E f \in Set(e.d.fp) \cup Set(e.d.fm) : f[2] \in MetaAttrs
              \/ e.m.sch # <<>> \/ e.m.ids # <<>> \/ e.m.eids # <<>> \/ e.d.sids # <<>> \/ e.d.ssch # <<>>
              \/ o.comps # p.comps
      A == o.S.attrs
      chg == {a \in DOMAIN A : a \in touched \/ (meta /\ (a \notin DOMAIN p.S.attrs \/ p.S.attrs[a] # A[a]))}
      T == AttrsOf(o.S.facts)
      I == IdentsOf(o.S.facts)
      IS == {<<k, I[k]>> : k \in DOMAIN I}
      changed == e.d.fp # <<>> \/ e.d.fm # <<>> \/ e.d.lp # <<>> \/ e.d.lm # <<>>
  IN L(e.d.dup = 0, "inv:duplicate")
     \* (What is downloaded may have facts of an attribute that has been retracted since.)
     \cup L(\A f \in Set(e.d.fp) : LET B == A @@ p.S.attrs IN
               IF f[2] \in DOMAIN B THEN f[3].t = B[f[2]].vt
               ELSE e.op.k = "sync" /\ \E x \in o.log : x[2] = f[2] /\ x[3] = DbValueType, "inv:type")
     \cup UNION {L(A[a].uniq = "n" \/ UniqueHolds(o.S.facts, a), "inv:unique") : a \in chg}
     \cup UNION {L(A[a].many \/ CardOneHolds(o.S.facts, a), "inv:card") : a \in chg}
     \cup (IF meta THEN
             L(A = T, "schema:memory") \cup L(o.S.ids = I /\ o.eids = IS, "idents:memory")
             \cup L(o.sids = IS, "idents:sql")
             \cup L(AttrsOf(o.ssch) = T, "schema:sql")
             \cup L(o.comps = {a \in DOMAIN A : A[a].comp}, "schema:components")
             \cup L(ValidSchema(A), "schema:valid")
           ELSE {})
     \cup L(e.m.odd = <<>>, "schema:interface")
     \cup L(e.m.last = o.S.parts[3] - 1, "parts:last")
     \cup (IF meta \/ e.d.flags # <<>> THEN L(FlagsOk(o), "flags") ELSE {})
     \cup (IF changed THEN L(o.sparts = PartView(o.log), "parts:sql") ELSE {})

\* Expensive checks, at the end of a trace and when a store is opened.
DeepLabels(o) == L(FoldLog(o.log) = o.S.facts, "fold")

-----------------------------------------------------------------------------
\* Transactions.

Ext(c) == {x \in c : x.t = "tmp"}

\* The entids that were given to the new classes: those the report names, and for the others those
\* under which the assertions are found among the observed facts.
ObservedNumber(prep, parts, after, rep, facts) ==
  LET C == prep.res.fresh
      told == {c \in C : \E x \in Ext(c) : x.s \in DOMAIN rep}
      m == [c \in told |-> rep[(CHOOSE x \in Ext(c) : x.s \in DOMAIN rep).s]]
      rest == C \ told
      free == (parts[2]..(after[2] - 1)) \ Range(m)
      cur == EAVs(facts)
      Fits(f) == Triples(prep.ts, Assignment(prep.res, m @@ f), "add") \subseteq cur
      B == IF Cardinality(rest) <= 6 /\ Cardinality(rest) <= Cardinality(free) THEN AllNumberings(rest, free) ELSE {}
  IN IF rest = {} THEN m
     ELSE IF \E f \in B : Fits(f) THEN m @@ (CHOOSE f \in B : Fits(f))
     ELSE m @@ Number(rest, parts[2])

NumberOk(parts, after, num) ==
  /\ Range(num) \subseteq parts[2]..(after[2] - 1)
  /\ Cardinality(Range(num)) = Cardinality(DOMAIN num)

\* Each new entity has an entid of its own that was never given out; some entids may be skipped.
PartsOk(prep, parts, after) ==
  /\ after[1] = parts[1] /\ after[3] = parts[3] + 1
  /\ after[2] \in (parts[2] + Cardinality(prep.res.fresh))..(parts[2] + Cardinality(prep.res.need))

\* What the report of an accepted transaction must say.
ReportOk(S, prep, num, r, facts) ==
  LET asg == Assignment(prep.res, num)
      T == {x \in DOMAIN asg : x.t = "tmp"}
  IN /\ r.txid = TxId(S)
     /\ PairsFn(r.tids) = [s \in {x.s : x \in T} |-> asg[Tmp(s)].n]
     /\ <<TxId(S), DbTxInstant, r.inst, TxId(S)>> \in facts

\* References to entids that have not been given out yet.  Whether a fresh entid then violates a
\* uniqueness constraint depends on which one it is.
Ahead(S, prep) ==
  LET A(v) == v.t = "ref" /\ v.n >= S.parts[2] /\ v.n < PartStart[3]
  IN (\E f \in S.facts : A(f[3])) \/ (\E t \in prep.ts : A(t.v))

NoInst == Val("inst", 0, "-")

TxLabels(st0, e, o) ==
  LET S == st0.o.S
      prep == Prepare(S, e.op.via, e.op.terms)
      inst == LET X == ValuesOf(o.S.facts, TxId(S), DbTxInstant) IN IF X = {} THEN NoInst ELSE CHOOSE x \in X : TRUE
  IN IF e.r.ok THEN
       LET rep == PairsFn(e.r.tids)
           num == IF prep.errs = {} THEN ObservedNumber(prep, S.parts, o.S.parts, rep, o.S.facts) ELSE EmptyMap
           out == Outcome(S, prep, num, inst)
           eff == out.eff
       IN IF out.errs # {} THEN [labels |-> {"accept:" \o x : x \in out.errs}, hw |-> o.S.parts[2], cov |-> {}]
          ELSE [labels |->
                  L(o.S.facts = out.facts, "facts")
                  \cup L(o.log = st0.o.log \cup LogOf(eff, TxId(S)), "log")
                  \cup L(NumberOk(S.parts, o.S.parts, num), "alloc")
                  \cup L(PartsOk(prep, S.parts, o.S.parts), "parts")
                  \cup L(ReportOk(S, prep, num, e.r, o.S.facts), "report"),
                hw |-> SetMax({st0.o.hw} \cup {n + 1 : n \in Range(num)}, 0),
                cov |-> {"tx:ok"}
                  \cup (IF prep.res.fresh # {} THEN {"tx:alloc"} ELSE {})
                  \cup (IF DOMAIN prep.res.m # {} THEN {"tx:upsert"} ELSE {})
                  \cup (IF \E c \in prep.res.fresh : Cardinality(c) > 1 THEN {"tx:unify"} ELSE {})
                  \cup (IF \E x \in eff.ret : TRUE THEN {"tx:retract"} ELSE {})
                  \cup (IF \E x \in eff.add \cup eff.ret : x[2] \in MetaAttrs THEN {"tx:schema"} ELSE {})]
     ELSE LET out == Outcome(S, prep, Number(prep.res.fresh, S.parts[2]), inst)
          IN [hw |-> st0.o.hw, labels |->
                L(out.errs # {} \/ Ahead(S, prep), "reject:spurious")
                \cup L(o.S.facts = S.facts, "rejected:facts") \cup L(o.log = st0.o.log, "rejected:log")
                \cup L(o.S.parts = S.parts, "rejected:parts")
                \cup L(o.S.attrs = S.attrs /\ o.S.ids = S.ids, "rejected:schema"),
              cov |-> {"tx:rej:" \o x : x \in out.errs}]

\* Ensuring a vocabulary.
VocabLabels(s, e, o) ==
  LET S == s.o.S
      c == VocabCheck(S, e.op)
      e1 == [e EXCEPT !.op = [k |-> "tx", via |-> "builder", terms |-> SeqOf(VocabTerms(S, e.op, c.as))],
                      !.r = [ok |-> e.r.ok, tids |-> <<>>, txid |-> TxId(S), inst |-> NoInst]]
      t == TxLabels(s, e1, o)
      none == L(o.S = S /\ o.log = s.o.log, "vocab:changed")
  IN CASE c.out = "error" -> [labels |-> L(~e.r.ok, "vocab:accepted") \cup none, cov |-> {"vocab:error"}, hw |-> s.o.hw]
       [] c.out = "existed" -> [labels |-> L(e.r.ok, "vocab:refused") \cup (IF e.r.ok THEN L(e.r.out = "existed", "vocab:outcome") ELSE {}) \cup none,
                                cov |-> {"vocab:existed"}, hw |-> s.o.hw]
       [] OTHER -> [labels |-> (IF e.r.ok THEN L(e.r.out = c.out, "vocab:outcome") ELSE {}) \cup (t.labels \ {"report"}),
                    cov |-> IF e.r.ok THEN {"vocab:" \o c.out} ELSE {"vocab:refused"}, hw |-> t.hw]

\* Every image of the files is the store before or after the transaction.
CrashLabels(e) ==
  IF "imgs" \notin DOMAIN e.r THEN {}
  ELSE UNION {
    LET g == e.r.imgs[n]
        pre == g.fp = <<>> /\ g.fm = <<>> /\ g.lp = <<>> /\ g.lm = <<>>
        post == /\ Set(g.fp) = Set(e.d.fp) /\ Set(g.fm) = Set(e.d.fm)
                /\ Set(g.lp) = Set(e.d.lp) /\ Set(g.lm) = Set(e.d.lm)
    IN L(g.ok, "crash:open")
       \cup L(g.dup = 0, "crash:duplicate")
       \cup (CASE g.w \in {"row", "precommit"} -> L(pre, "crash:early")
               [] g.w = "done" -> L(post, "crash:lost")
               [] OTHER -> L(pre \/ post, "crash:torn"))
    : n \in DOMAIN e.r.imgs}

-----------------------------------------------------------------------------
SameDb(a, b) == a.S = b.S /\ a.log = b.log
SameLabels(a, b, l) ==
  L(a.S.facts = b.S.facts /\ a.log = b.log, l \o ":data") \cup L(a.S.parts = b.S.parts, l \o ":parts")
  \cup L(a.S.attrs = b.S.attrs /\ a.S.ids = b.S.ids, l \o ":schema")

\* A store opened again is the store that was closed, except that entids skipped at the end of a
\* partition may be given out after all.
\* (A known finding: an entid that was given out but occurs in the log only as a value is forgotten.)
ValueOnly(a, b) ==
  /\ b.S.parts[1] = a.S.parts[1] /\ b.S.parts[3] = a.S.parts[3]
  /\ b.S.parts[2] = PartView(a.log)[2]
  /\ \A n \in b.S.parts[2]..(a.hw - 1) : (\E x \in a.log : x[4] = Ref(n))
ReopenLabels(a, b) ==
  L(a.S.facts = b.S.facts /\ a.log = b.log, "reopen:data")
  \cup L(a.S.attrs = b.S.attrs /\ a.S.ids = b.S.ids, "reopen:schema")
  \cup L(b.S.parts[1] = a.S.parts[1] /\ b.S.parts[3] = a.S.parts[3] /\ b.S.parts[2] \in a.hw..SetMax({a.S.parts[2], PartView(b.log)[2]}, 0),
         IF ValueOnly(a, b) THEN "known:value-only-entid" ELSE "reopen:parts")

\* Entids of moved transactions may be given out again.
MovedParts(o) ==
  LET v == PartView(o.log) IN
  /\ o.S.parts[1] = v[1] /\ o.S.parts[3] = v[Len(v)]
  /\ o.S.parts[2] = (IF Len(v) = 2 THEN PartStart[2] ELSE v[2])

SpIndex(sps, name) == SetMax({n \in DOMAIN sps : sps[n].name = name}, 0)

R(labels, cov) == [labels |-> labels, cov |-> cov, hw |-> 0]

\* Something failed in the middle of the operation: nothing has changed.  If the operation was part of a
\* transaction, that may be gone; then nothing more can be done in it, and nothing of it remains.
Faulty(e) == "fault" \in DOMAIN e.op
Gone(e) == "gone" \in DOMAIN e.r
FaultLabels(s, e, o) ==
  IF Gone(e) THEN L(s.ip, "fault:alone") \cup L(o.S.facts = s.base.S.facts /\ o.log = s.base.log, "fault:data")
  ELSE IF e.op.k = "commit" THEN SameLabels(s.base, o, "fault")
  ELSE SameLabels(s.o, o, "fault")
       \cup (IF e.op.k = "sync" THEN L(RemoteAfter(s.R, e.r) \in {s.R, s.R \o TxRows(s.o.log, s.k + 1, NumTxs(s.o.log))}, "sync:fail:remote") ELSE {})
GoneLabels(s, e, o) ==
  LET k == e.op.k IN
  CASE k \in {"drop", "rollback"} -> SameLabels(s.base, o, "gone")
    [] k = "commit" -> L(~e.r.ok, "gone:commit") \cup SameLabels(s.base, o, "gone")
    [] OTHER -> L(k \in {"tx", "sp", "rb", "rel", "vocab"} => ~e.r.ok, "gone:" \o k)
                \cup L(Gone(e) /\ o.S.facts = s.base.S.facts /\ o.log = s.base.log, "gone:data")

\* By whatever door an operation comes, it is the same operation.  What the interface for C adds: instants
\* are seen in whole seconds; there is nothing before the first or after the last row or value, and no
\* entid for a temporary id that was not there; an attribute has the entid its name stands for.
DoorLabels(s, e) ==
  (IF "door" \notin DOMAIN e.r THEN {}
   ELSE LET d == e.r.door IN
        L(\A n \in DOMAIN d.secs : d.secs[n][1] = d.secs[n][2], "door:instant")
        \cup L(~d.stray, "door:stray")
        \cup L(\A n \in DOMAIN d.ids : d.ids[n][1] \in DOMAIN s.o.S.ids /\ s.o.S.ids[d.ids[n][1]] = d.ids[n][2], "door:entid"))
  \* What is said of how a query will be answered, and the answer.
  \cup (IF "explain" \notin DOMAIN e.r \/ ~e.r.ok THEN {}
        ELSE L(e.r.explain # "error", "explain:refused")
             \cup L(e.r.explain = "empty" => e.r.rows = <<>>, "explain:empty"))
DoorCov(e) ==
  IF "door" \notin DOMAIN e.op THEN {}
  ELSE {"door:" \o e.op.k \o ":" \o e.op.door \o (IF e.op.k = "tx" THEN ":" \o e.op.via ELSE "") \o (IF e.r.ok THEN "" ELSE ":no")}
       \cup (IF "explain" \in DOMAIN e.r THEN {"explain:" \o e.r.explain} ELSE {})

\* Judge one event: labels, coverage, and the state of the transaction stack after it.
OpLabels(s, e, o) ==
  LET k == e.op.k IN
  CASE e.r.panic -> R({"panic:" \o k}, {})
    [] s.gone -> [R(GoneLabels(s, e, o), {"gone:" \o k}) EXCEPT !.hw = s.o.hw]
    [] Faulty(e) /\ ~e.r.ok -> [R(FaultLabels(s, e, o), {"fault:" \o k, IF Gone(e) THEN "fault:gone" ELSE "fault:kept"}) EXCEPT !.hw = s.o.hw]
    [] k = "reset" -> R(DeepLabels(o), {})
    [] k = "tx" -> LET t == TxLabels(s, e, o) IN [t EXCEPT !.labels = @ \cup CrashLabels(e)]
    [] k = "vocab" -> VocabLabels(s, e, o)
    [] k = "edn" -> R(Edn!ReadLabels(e.op, e.r) \cup SameLabels(s.o, o, "read"), Edn!ReadCov(e.op, e.r))
    [] k = "text" -> R(SameLabels(s.o, o, "read"), {"text:" \o e.op.what \o (IF e.r.ok THEN ":ok" ELSE ":no")})
    [] k = "vocabs" -> R(L(e.r.ok /\ {<<x.name, x.e, x.v, Set(x.as)>> : x \in Set(e.r.vocs)} = Vocabs(s.o.S) /\ NoDup(e.r.vocs), "vocab:read") \cup SameLabels(s.o, o, "read"), {"vocab:read"})
    [] k = "begin" -> R(L(e.r.ok, "begin") \cup SameLabels(s.o, o, "begin"), {"begin"})
    [] k = "commit" -> R(L(e.r.ok, "commit") \cup SameLabels(s.o, o, "commit"), {"commit"})
    [] k \in {"rollback", "drop"} -> R(L(e.r.ok, k) \cup SameLabels(s.base, o, k), {k})
    [] k = "sp" -> R(L(e.r.ok, "sp") \cup SameLabels(s.o, o, "sp"), {"savepoint"})
    [] k = "rb" -> LET n == SpIndex(s.sps, e.op.name) IN
                   IF n = 0 THEN R(L(~e.r.ok, "rb:ok") \cup SameLabels(s.o, o, "rb"), {})
                   ELSE R(L(e.r.ok, "rb") \cup SameLabels(s.sps[n].o, o, "rb"), {"rollback-to"})
    [] k = "rel" -> LET n == SpIndex(s.sps, e.op.name) IN
                   R(L(e.r.ok = (n # 0), "rel") \cup SameLabels(s.o, o, "rel"), {"release"})
    [] k \in {"obs", "unobs", "use"} -> R(L(e.r.ok, k) \cup SameLabels(s.o, o, "read"), {k})
    [] k = "cache" -> R(L(e.r.ok = CacheOk(s.o.S, e.op), "cache:register") \cup SameLabels(s.o, o, "read"),
                        {"cache:" \o e.op.act \o e.op.dir \o (IF s.ip THEN ":open" ELSE "")})
    [] k = "look" -> R(LookLabels(s.o.S, e.op, e.r) \cup SameLabels(s.o, o, "read"), LookCov(s.o.S, e.op))
    [] k = "q" -> R(QueryLabels(s.o, e.op, e.r) \cup SameLabels(s.o, o, "read"), QueryCov(s.o, e.op, e.r))
    [] k = "pull" -> R(PullLabels(s.o.S, s.o.eids, e.op, e.r) \cup SameLabels(s.o, o, "read"), PullCov(s.o.S, s.o.eids, e.op))
    [] k = "reopen" -> R(L(e.r.ok, "reopen") \cup (IF e.r.ok THEN NoteLabels(s.w, e.r.notes) ELSE {}) \cup (IF e.r.ok THEN ReopenLabels(s.o, o) \cup DeepLabels(o) ELSE {}), {"reopen"})
    [] k = "end" -> R(SameLabels(s.o, o, "end") \cup DeepLabels(o) \cup (IF s.dead THEN {} ELSE NoteLabels(s.w, e.r.notes)),
                      {"observed" : x \in {y \in DOMAIN s.w.notes : s.w.notes[y] # <<>>}})
    [] k = "move" ->
         IF e.r.ok THEN R(L(MoveOk(s.o.log, e.op.from, e.op.tl) /\ Rewindable(s.o.log, e.op.from), "accept:move")
                          \cup L(o.log = Moved(s.o.log, e.op.from, e.op.tl), "move:log")
                          \cup L(o.S.facts = FoldLog(o.log), "move:facts")
                          \cup L(MovedParts(o), "move:parts"), {"move"})
         ELSE R(L(~(MoveOk(s.o.log, e.op.from, e.op.tl) /\ Rewindable(s.o.log, e.op.from)), "move:refused") \cup SameLabels(s.o, o, "move:rejected"), {"move:refused"})
    [] k = "sw" -> R(IF s.o = EmptyObs THEN DeepLabels(o) ELSE SameLabels(s.o, o, "sw"), {"sw"})
    [] k = "sync" -> R(SyncLabels(s.o, o, s.R, s.k, e.op, e.r), SyncCov(s.o, o, s.R, s.k, e.op, e.r))
    [] OTHER -> R({"unknown-op"}, {})

NextSps(s, e, o) ==
  CASE e.op.k \in {"begin", "commit", "rollback", "drop", "reset", "end"} -> <<>>
    [] e.op.k = "sp" /\ e.r.ok -> Append(s.sps, [name |-> e.op.name, o |-> o, np |-> Len(s.w.pend)])
    [] e.op.k = "rb" /\ e.r.ok -> SubSeq(s.sps, 1, SpIndex(s.sps, e.op.name))
    [] e.op.k = "rel" /\ e.r.ok -> SubSeq(s.sps, 1, SpIndex(s.sps, e.op.name) - 1)
    [] OTHER -> s.sps

\* What the observers are owed.
NextWatch(s, e) ==
  LET k == e.op.k IN
  CASE k = "obs" -> Register(s.w, e.op.key, Set(e.op.as))
    [] k = "unobs" -> Unregister(s.w, e.op.key)
    [] k = "tx" /\ e.r.ok -> LET w1 == Pend(s.w, e.r.txid, {x[3] : x \in Set(e.d.lp)}) IN IF s.ip THEN w1 ELSE Deliver(w1)
    [] k = "vocab" /\ e.r.ok /\ e.d.lp # <<>> -> LET w1 == Pend(s.w, TxId(s.o.S), {x[3] : x \in Set(e.d.lp)}) IN IF s.ip THEN w1 ELSE Deliver(w1)
    [] k = "commit" /\ e.r.ok -> Deliver(s.w)
    [] k \in {"rollback", "drop", "begin", "commit"} -> Forget(s.w, 0)
    [] k = "rb" /\ e.r.ok -> Forget(s.w, s.sps[SpIndex(s.sps, e.op.name)].np)
    [] k = "reopen" -> NoWatch
    [] OTHER -> s.w

\* Set a store aside and take another one.
Switch(s, rep) ==
  IF rep = s.cur THEN s
  ELSE LET t == IF rep \in DOMAIN s.reps THEN s.reps[rep] ELSE [o |-> EmptyObs, k |-> 0]
       IN [s EXCEPT !.o = t.o, !.base = t.o, !.k = t.k, !.cur = rep,
                    !.reps = (s.cur :> [o |-> s.o, k |-> s.k]) @@ @]

\* (A known finding: an attribute may be retracted while there are facts of it; if it is then defined
\* again, as something else, these facts are not what it says.)
InstalledOverFacts(a, b) ==
  \E f \in b.S.facts \ a.S.facts :
    /\ f[2] = DbValueType /\ f[1] \notin DOMAIN a.S.attrs
    /\ \E g \in a.S.facts : g[2] = f[1]

Step(s0, e) ==
  LET s == CASE e.op.k = "reset" -> [Init0 EXCEPT !.cov = s0.cov, !.n = s0.n]
             [] e.op.k = "sw" -> Switch(s0, e.op.rep)
             [] OTHER -> s0
      o0 == Observe(s.o, e)
      j == OpLabels(s, e, o0)
      hw == CASE (e.op.k \in {"rollback", "drop"} \/ (e.op.k = "commit" /\ ~e.r.ok)) -> s.base.hw
              [] e.op.k = "rb" /\ SpIndex(s.sps, e.op.name) # 0 -> s.sps[SpIndex(s.sps, e.op.name)].o.hw
              [] e.op.k \in {"tx", "vocab"} /\ ~e.r.panic -> j.hw
              [] e.op.k \in {"reopen", "move"} -> SetMin2(o0.hw, o0.S.parts[2])
              [] e.op.k = "sync" -> o0.S.parts[2]
              [] OTHER -> o0.hw
      o == [o0 EXCEPT !.hw = hw]
      ip == e.ip
      base == IF ip THEN s.base ELSE o
      outside == IF e.o = <<>> THEN s.outside
                 ELSE [facts |-> (s.outside.facts \ Set(e.o[1].fm)) \cup Set(e.o[1].fp),
                       log   |-> (s.outside.log \ Set(e.o[1].lm)) \cup Set(e.o[1].lp)]
      iso == IF e.o = <<>> THEN {}
             ELSE L(outside.facts = base.S.facts /\ outside.log = base.log, "isolation")
      gone == ip /\ (s.gone \/ Gone(e))
      inv == IF e.r.panic \/ gone THEN {} ELSE StateLabels(s.o, o, e)
      over == s.over \/ (e.op.k \in {"tx", "vocab"} /\ InstalledOverFacts(s.o, o))
      labels == j.labels \cup iso \cup inv \cup (IF e.r.panic THEN {} ELSE DoorLabels(s, e))
  IN [labels |-> IF over /\ labels # {} THEN {"known:attribute-over-facts"} ELSE labels,
      st |-> [o |-> o, base |-> base, outside |-> outside, ip |-> ip, sps |-> NextSps(s, e, o),
              R |-> IF e.op.k = "sync" /\ ~e.r.panic THEN RemoteAfter(s.R, e.r) ELSE s.R,
              k |-> IF e.op.k = "sync" /\ ~e.r.panic THEN KnownAfter(s.o, s.R, s.k, e.r) ELSE s.k,
              cur |-> s.cur, reps |-> s.reps, over |-> over, gone |-> gone,
              w |-> NextWatch(s, e), dead |-> s.dead \/ e.r.panic, cov |-> s.cov \cup j.cov \cup DoorCov(e), n |-> s.n + 1]]
=============================================================================
