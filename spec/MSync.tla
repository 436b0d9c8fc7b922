------------------------------- MODULE MSync -------------------------------
(* What synchronising a store with the remote log must do.

   op.calls, if given, is the number of requests the remote answers.  The result tells what the store says
   it did (rep), whether a request failed, and how the remote log changed: it kept its first
   `keep` transactions, and `new` follow.                                                         *)
EXTENDS MLog

LogSeq(r) == [i \in DOMAIN r.new |-> Set(r.new[i])]
RemoteAfter(R, r) == SubSeq(R, 1, r.keep) \o LogSeq(r)

L1(c, l) == IF c THEN {} ELSE {l}

(* When both sides have changed.  root: the log with the local transactions moved away and the remote ones
   taken up; S0: the database it comes to; local: the transactions to rebase.
   (A known finding: entities are given out from the last one of the last incoming transaction, not from
   the last one there is.  That is `low`.)                                                         *)
Merge(log, R, k) ==
  LET root == TakeUp(Moved(log, TxAt(k + 1), TxAt(k)), R, k)
      v == PartView(root)
  IN [root |-> root,
      local |-> TxRows(log, k + 1, NumTxs(log)),
      S0 |-> DbOf(FoldLog(root), IF Len(v) = 2 THEN <<v[1], PartStart[2], v[2]>> ELSE v),
      low |-> 1 + SetMax({PartStart[2] - 1} \cup {x[1] : x \in {y \in R[Len(R)] : y[1] >= PartStart[2] /\ y[1] < PartStart[3]}}, 0)]

\* Local transactions that define attributes may be refused: altering attributes is not supported.
Plainly(local) == \A i \in DOMAIN local : \A x \in local[i] : x[2] \notin MetaAttrs

(* o and p: what is observed before and after; R the remote log before; k how much of it is known. *)
SyncLabels(o, p, R, k, op, r) ==
  LET n == NumTxs(o.log)
      R1 == RemoteAfter(R, r)
      Same == L1(p.S.facts = o.S.facts /\ p.log = o.log, "sync:local")
              \cup L1(p.S.attrs = o.S.attrs /\ p.S.ids = o.S.ids, "sync:schema") \cup L1(p.S.parts = o.S.parts, "sync:parts")
      Kept == L1(R1 = R, "sync:remote")
      first == k = 0 /\ R # <<>>
      k1 == IF first THEN 1 ELSE k
      mine == n > k1
      theirs == Len(R) > k1
      \* An earlier merge left entities to be given out again.
      Behind(q) == LET v == PartView(q.log) IN Len(v) = 3 /\ q.S.parts[2] < v[2]
      Read == L1(p.S.facts = FoldLog(p.log), "sync:facts")
              \cup L1(LET v == PartView(p.log) IN Len(v) = 2 \/ (p.S.parts[2] >= v[2] /\ p.S.parts[3] = v[3]), "sync:parts")
  IN IF ~Dense(o.log) THEN {"sync:eval"}
     ELSE IF ~r.ok THEN
       \* nothing is changed
       {"sync:fail:" \o l : l \in {"local" : x \in Same}}
       \* A request that is not answered may have had its effect.
       \cup L1(R1 = R \/ (r.fail /\ op.lost /\ ~theirs /\ R1 = R \o TxRows(o.log, k1 + 1, n)), "sync:fail:remote")
       \cup (IF r.fail \/ (first /\ ~theirs /\ mine) THEN {}
             ELSE IF ~(theirs /\ mine) THEN {"sync:refused"}
             ELSE LET m == Merge(o.log, R, k1) IN
                  IF ~Plainly(m.local) \/ ~Rewindable(o.log, TxAt(k1 + 1)) \/ ~Rebasable(m.S0, m.local) THEN {}
                  ELSE IF m.low < m.S0.parts[2] THEN {"known:merge-entids"}
                  ELSE {"sync:refused"})
     ELSE IF r.fail THEN {"sync:fail:ignored"}
     ELSE IF R = <<>> THEN
       Same \cup L1(R1 = TxRows(o.log, 1, n), "sync:upload") \cup L1(r.whole, "sync:upload") \cup L1(r.rep = "up", "sync:report")
     ELSE IF ~theirs /\ ~mine THEN Same \cup Kept \cup L1(r.rep = (IF first THEN "merge" ELSE "same"), "sync:report")
     ELSE IF ~theirs THEN
       Same \cup L1(R1 = R \o TxRows(o.log, k1 + 1, n), "sync:upload") \cup L1(r.rep = "up", "sync:report")
     ELSE IF ~mine THEN
       Kept \cup L1(p.log = TakeUp(o.log, R, k1), "sync:download")
       \cup (IF "sync:parts" \in Read /\ Behind(o) THEN (Read \ {"sync:parts"}) \cup {"known:merge-entids"} ELSE Read)
       \cup L1(r.rep = (IF first THEN "merge" ELSE "down"), "sync:report")
     ELSE
       \* both have changed
       LET m == Merge(o.log, R, k1)
           root == m.root
           S0 == m.S0
           low == m.low
           local == m.local
           added == p.log \ root
           Follow(next) == Rebase([S0 EXCEPT !.parts[2] = next], local, p.log, p.S.parts[2]).errs \subseteq {"numbers"}
           Reused(l, labels) == IF l \in labels /\ low < S0.parts[2] THEN (labels \ {l}) \cup {"known:merge-entids"} ELSE labels
       IN Kept \cup Reused("sync:parts", Read)
          \cup L1(root \subseteq p.log, "sync:merge:history")
          \cup L1(\A x \in added : x[6] = 0 /\ x[1] > TxAt(Len(R)), "sync:merge:history")
          \cup (IF Follow(S0.parts[2]) THEN {} ELSE IF low < S0.parts[2] /\ Follow(low) THEN {"known:merge-entids"} ELSE {"sync:merge:rebase"})
          \cup L1(r.rep = (IF added = {} THEN "merge" ELSE "again"), "sync:report")

SyncCov(o, p, R, k, op, r) ==
  LET k1 == IF k = 0 /\ R # <<>> THEN 1 ELSE k
      mine == NumTxs(o.log) > k1
      theirs == Len(R) > k1
  IN {"sync:" \o (IF ~r.ok THEN (IF r.fail THEN "failed" ELSE "refused") ELSE r.rep)}
     \cup (IF k = 0 THEN {"sync:first"} ELSE {})
     \cup (IF r.ok /\ mine /\ theirs /\ p.log # o.log
           THEN (IF Plainly(TxRows(o.log, k1 + 1, NumTxs(o.log))) THEN {"sync:both"} ELSE {"sync:both:schema"}) ELSE {})

\* How much of the remote log the store knows afterwards.
KnownAfter(o, R, k, r) ==
  IF ~r.ok THEN k
  ELSE Len(RemoteAfter(R, r))
=============================================================================
