------------------------------- MODULE Model -------------------------------
(* The store as a transition system, explored exhaustively over a small world ($WORLD): all sequences of
   at most $DEPTH operations.  TLC checks the invariants of the design, and prints every transition of the
   explored graph; bin/mc.py turns them into histories that the real store replays, which are then
   checked, event by event, by Trace.

   A store is a database S with its log; `hw` is one more than the greatest entid given out.        *)
EXTENDS MPools, Json, IOUtils

Wd == World(IOEnv.WORLD)
Depth == atoi(IOEnv.DEPTH)

\* The store a new file comes to: the facts of the bootstrap transaction, as recorded.
Boot == ndJsonDeserialize(IOEnv.BOOT)[1]
BootLog == Set(Boot.d.lp)
Store0 == LET F == Set(Boot.d.fp) IN [S |-> DbOf(F, Boot.m.parts), log |-> BootLog, given |-> {}]

VARIABLES base,   \* what is committed
          work,   \* <<>>, or the store as the open transaction sees it
          sps,    \* savepoints
          w,      \* what observers are owed
          caches, \* <<attribute, direction>> that are cached
          hist    \* the operations so far, by position in the world's list
vars == <<base, work, sps, w, caches, hist>>

Inst == Val("inst", 0, "-")
Cur == IF work = <<>> THEN base ELSE work[1]

\* The transaction as the specification of transactions has it.
Do(s, op) ==
  LET prep == Prepare(s.S, op.via, op.terms)
      num == Number(prep.res.fresh, s.S.parts[2])
      out == Outcome(s.S, prep, num, Inst)
  IN IF out.errs # {} THEN [ok |-> FALSE, s |-> s, as |-> {}]
     ELSE [ok |-> TRUE, as |-> {x[2] : x \in out.eff.add \cup out.eff.ret},
           s |-> [S |-> NextDb(s.S, prep, out), log |-> s.log \cup LogOf(out.eff, TxId(s.S)), given |-> s.given \cup Range(num)]]

RECURSIVE Apply(_, _)
Apply(s, ops) == IF ops = <<>> THEN s ELSE Apply(Do(s, Head(ops)).s, Tail(ops))

Emit(i, ok, same) == PrintT(<<"STEP", ToJson([h |-> hist, i |-> i, ok |-> ok, same |-> same])>>)

\* Opened again, the store knows what the log tells.
Opened(s) ==
  LET v == PartView(s.log) IN [s EXCEPT !.S = DbOf(FoldLog(s.log), IF Len(v) = 2 THEN <<v[1], PartStart[2], v[2]>> ELSE v)]

SpAt(name) == SetMax({n \in DOMAIN sps : sps[n].name = name}, 0)

Op(i) ==
  LET op == Wd.ops[i]
      k == op.k
      open == work # <<>>
  IN
  /\ hist' = Append(hist, i)
  /\ CASE k = "tx" ->
            LET d == Do(Cur, op) IN
            /\ (IF open THEN work' = <<d.s>> /\ base' = base ELSE base' = d.s /\ work' = work)
            /\ w' = (IF ~d.ok THEN w ELSE LET p == Pend(w, TxId(Cur.S), d.as) IN IF open THEN p ELSE Deliver(p))
            /\ UNCHANGED <<sps, caches>>
            /\ Emit(i, d.ok, ~d.ok)
       [] k = "begin" -> ~open /\ work' = <<base>> /\ UNCHANGED <<base, sps, w, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "commit" -> open /\ base' = Cur /\ work' = <<>> /\ sps' = <<>> /\ w' = Deliver(w) /\ UNCHANGED caches /\ Emit(i, TRUE, FALSE)
       [] k \in {"rollback", "drop"} -> open /\ work' = <<>> /\ sps' = <<>> /\ w' = Forget(w, 0) /\ UNCHANGED <<base, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "sp" -> open /\ Len(sps) < 3 /\ sps' = Append(sps, [name |-> op.name, s |-> Cur, np |-> Len(w.pend)]) /\ UNCHANGED <<base, work, w, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "rb" ->
            LET n == SpAt(op.name) IN
            /\ open
            /\ (IF n = 0 THEN UNCHANGED <<work, sps, w>>
                ELSE work' = <<sps[n].s>> /\ sps' = SubSeq(sps, 1, n) /\ w' = Forget(w, sps[n].np))
            /\ UNCHANGED <<base, caches>> /\ Emit(i, n # 0, n = 0)
       [] k = "rel" ->
            LET n == SpAt(op.name) IN
            /\ open /\ sps' = SubSeq(sps, 1, IF n = 0 THEN Len(sps) ELSE n - 1)
            /\ UNCHANGED <<base, work, w, caches>> /\ Emit(i, n # 0, n = 0)
       [] k = "reopen" -> ~open /\ base' = Opened(base) /\ w' = NoWatch /\ UNCHANGED <<work, sps, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "obs" -> ~open /\ w' = Register(w, op.key, {base.S.ids[a] : a \in Set(op.as)}) /\ UNCHANGED <<base, work, sps, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "unobs" -> ~open /\ w' = Unregister(w, op.key) /\ UNCHANGED <<base, work, sps, caches>> /\ Emit(i, TRUE, FALSE)
       [] k = "cache" -> caches' = (IF op.act = "reg" THEN caches \cup {<<op.a, op.dir>>} ELSE {c \in caches : c[1] # op.a})
                         /\ UNCHANGED <<base, work, sps, w>> /\ Emit(i, TRUE, FALSE)

Init ==
  LET s == Apply(Store0, Wd.setup) IN
  /\ base = s /\ work = <<>> /\ sps = <<>> /\ w = NoWatch /\ caches = {} /\ hist = <<>>
  /\ PrintT(<<"WORLD", ToJson([setup |-> Wd.setup, ops |-> Wd.ops, ids |-> [k \in DOMAIN s.S.ids |-> s.S.ids[k]]])>>)

Next == Len(hist) < Depth /\ \E i \in DOMAIN Wd.ops : Op(i)
Spec == Init /\ [][Next]_vars

\* Histories that come to the same present are explored once.  (Only user entities matter; the dates
\* of facts do not.)
Abs(s) == <<{<<f[1], f[2], f[3]>> : f \in {g \in s.S.facts : g[1] >= PartStart[2] /\ g[1] < PartStart[3]}}, s.S.parts[2]>>
View == <<Abs(base), [x \in DOMAIN work |-> Abs(work[x])], [n \in DOMAIN sps |-> <<sps[n].name, Abs(sps[n].s)>>],
          w.obs, [n \in DOMAIN w.pend |-> w.pend[n][2]], caches>>

-----------------------------------------------------------------------------
\* The guarantees, of the design.
Stores == {base} \cup {work[x] : x \in DOMAIN work}

\* (The facts of an attribute that was removed remain.)
TypesHold   == \A s \in Stores : \A f \in s.S.facts : f[2] \in DOMAIN s.S.attrs => f[3].t = s.S.attrs[f[2]].vt
UniqueHold  == \A s \in Stores : \A a \in DOMAIN s.S.attrs : s.S.attrs[a].uniq # "n" => UniqueHolds(s.S.facts, a)
CardHold    == \A s \in Stores : \A a \in DOMAIN s.S.attrs : ~s.S.attrs[a].many => CardOneHolds(s.S.facts, a)
LogHolds    == \A s \in Stores : FoldLog(s.log) = s.S.facts
SchemaHolds == \A s \in Stores : s.S.attrs = AttrsOf(s.S.facts) /\ s.S.ids = IdentsOf(s.S.facts) /\ ValidSchema(s.S.attrs)
\* No entity is stored that was not given out, and none was given out that is ahead.
IdsHold     == \A s \in Stores : /\ \A f \in s.S.facts : f[1] < PartStart[2] \/ f[1] >= PartStart[3] \/ f[1] < s.S.parts[2]
                                 /\ \A n \in s.given : n < s.S.parts[2]
\* Opening a store again gives the same facts and schema, and no entid that was used.
ReopenHolds == LET o == Opened(base) IN o.S.facts = base.S.facts /\ o.S.attrs = base.S.attrs /\ o.S.ids = base.S.ids /\ o.S.parts[3] = base.S.parts[3]
Inv == TypesHold /\ UniqueHold /\ CardHold /\ LogHolds /\ SchemaHolds /\ IdsHold /\ ReopenHolds

\* An accepted transaction, stated again, changes nothing if it makes no new entity.
Idempotent ==
  \A i \in DOMAIN Wd.ops : Wd.ops[i].k = "tx" =>
    LET a == Do(Cur, Wd.ops[i]) IN
    a.ok /\ a.s.S.parts[2] = Cur.S.parts[2] =>
      LET b == Do(a.s, Wd.ops[i]) IN b.ok => LET x == EAVs({f \in a.s.S.facts : f[1] < PartStart[3]}) y == EAVs({f \in b.s.S.facts : f[1] < PartStart[3]}) IN x = y

\* What is committed never loses a log entry, and what is uncommitted is not seen.
Growing == [][base.log \subseteq base'.log]_base
Isolated == [][work # <<>> /\ work' # <<>> => base' = base]_vars
=============================================================================
