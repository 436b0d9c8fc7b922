-------------------------------- MODULE MLog --------------------------------
(* What is computed from the log: the facts it comes to, the next entids, the transactions it is
   made of; moving transactions off the main timeline; and the log that stores share.

   A log entry is <<tx, e, a, v, added, timeline>>; the main timeline is 0.                       *)
EXTENDS MTx

\* The facts a log comes to: an assertion stands until it is retracted.
FoldLog(log) ==
  LET M == {x \in log : x[6] = 0}
      Adds == {x \in M : x[5]}
      Gone == {<<x[2], x[3], x[4]>> : x \in M \ Adds}
      Moot == {x \in M : <<x[2], x[3], x[4]>> \in Gone}
      Dead(x) == \E y \in Moot : ~y[5] /\ y[2] = x[2] /\ y[3] = x[3] /\ y[4] = x[4] /\ y[1] > x[1]
      Live == {x \in Adds : <<x[2], x[3], x[4]>> \notin Gone \/ ~Dead(x)}
  IN {<<x[2], x[3], x[4], x[1]>> : x \in Live}

\* The partitions that have entities, and the entid after the last of each.
PartView(log) ==
  LET Es == {x[2] : x \in {y \in log : y[6] = 0}}
      P(p) == {e \in Es : e >= PartStart[p] /\ (p = 3 \/ e < PartStart[p + 1])}
      X(p) == IF P(p) = {} THEN <<>> ELSE <<1 + SetMax(P(p), 0)>>
  IN X(1) \o X(2) \o X(3)

-----------------------------------------------------------------------------
\* Timelines.  The transactions from `from` on are moved to another, empty, timeline.

MoveOk(log, from, tl) ==
  /\ tl # 0
  /\ \A x \in log : x[6] # tl
  /\ \E x \in log : x[6] = 0 /\ x[1] >= from
Moved(log, from, tl) ==
  {x \in log : x[6] # 0 \/ x[1] < from}
  \cup {<<x[1], x[2], x[3], x[4], x[5], tl>> : x \in {y \in log : y[6] = 0 /\ y[1] >= from}}

(* A transaction is taken back by transacting its opposite, in the state it left.  What cannot be
   transacted (an attribute cannot be retracted in part) cannot be taken back.                    *)
Undoable(log, t) ==
  LET rows == {x \in log : x[6] = 0 /\ x[1] = t}
      S == DbOf(FoldLog({x \in log : x[6] = 0 /\ x[1] <= t}), <<PartStart[1], PartStart[2], t + 1>>)
      Tr(X) == {<<x[2], x[3], x[4]>> : x \in X}
  IN /\ \A x \in rows : x[3] \in DOMAIN S.attrs
     /\ Judge(S, Tr({x \in rows : ~x[5]}), Tr({x \in rows : x[5]}), Val("inst", 0, "-")).errs = {}
Rewindable(log, from) == \A t \in {x[1] : x \in {y \in log : y[6] = 0 /\ y[1] >= from}} : Undoable(log, t)

-----------------------------------------------------------------------------
(* Sharing a log.  Stores share a remote log: a sequence of transactions, each the set of its
   <<e, a, v, added>>.  A store knows the first k of them: they are the first k transactions of its
   own main log.  Transactions have consecutive ids, so both are given by position.                *)

TxAt(i) == Tx0 + i - 1
RowsAt(log, t) == {<<x[2], x[3], x[4], x[5]>> : x \in {y \in log : y[6] = 0 /\ y[1] = t}}
NumTxs(log) == Cardinality({x[1] : x \in {y \in log : y[6] = 0}})
Dense(log) == {x[1] : x \in {y \in log : y[6] = 0}} = {TxAt(i) : i \in 1..NumTxs(log)}
TxRows(log, a, b) == [i \in 1..(b - a + 1) |-> RowsAt(log, TxAt(a + i - 1))]
EntriesOf(rows, t) == {<<t, x[1], x[2], x[3], x[4], 0>> : x \in rows}

\* A store takes up the remote transactions it does not know.
TakeUp(log, R, k) == log \cup UNION {EntriesOf(R[i], TxAt(i)) : i \in (k + 1)..Len(R)}

(* Rebasing.  When both sides have changed, the local transactions are moved to another timeline,
   the remote ones are taken up, and each local one is stated again on top of them: an entity it
   asserted something about becomes a temporary id (so it is the entity with the same unique
   identity, or a new one); what it only retracted is retracted from whoever has that unique value
   now, and not at all if the attribute is not unique.                                             *)
Str(n) == ToString(n)
RebaseTerms(S, rows) ==
  LET Rows == {x \in rows : x[2] # DbTxInstant}
      Alloc == {x[1] : x \in {y \in Rows : y[4]}}
      AP(a) == [kw |-> "", n |-> a, rev |-> FALSE]
      Place(x) == [k |-> "val", v |-> Val("str", 0, Str(x[1]))]
      Adds == {[k |-> "add", e |-> Place(x), a |-> AP(x[2]), v |-> [k |-> "val", v |-> x[3]]] : x \in {y \in Rows : y[4]}}
      Rets == {[k |-> "ret", e |-> Place(x), a |-> AP(x[2]), v |-> [k |-> "val", v |-> x[3]]] : x \in {y \in Rows : ~y[4] /\ y[1] \in Alloc}}
      Uniq(x) == x[2] \in DOMAIN S.attrs /\ S.attrs[x[2]].uniq # "n" /\ HoldersOf(S.facts, x[2], x[3]) # {}
      Lus == {[k |-> "ret", e |-> [k |-> "lu", a |-> AP(x[2]), v |-> x[3]], a |-> AP(x[2]), v |-> [k |-> "val", v |-> x[3]]]
              : x \in {y \in Rows : ~y[4] /\ y[1] \notin Alloc /\ Uniq(y)}}
  IN Adds \cup Rets \cup Lus

RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SeqOf(X \ {x})

RECURSIVE AllNumberings(_, _)
\* All ways to give the entids N to the classes C.
AllNumberings(C, N) == IF C = {} THEN {EmptyMap}
             ELSE LET c == CHOOSE x \in C : TRUE
                  IN UNION {{(c :> n) @@ f : f \in AllNumberings(C \ {c}, N \ {n})} : n \in N}

\* All ways to give each class one of its own candidates, no two the same.
RECURSIVE Choices(_, _, _)
Choices(C, Cand, used) ==
  IF C = {} THEN {EmptyMap}
  ELSE LET c == CHOOSE x \in C : \A y \in C : Cardinality(Cand[x] \ used) <= Cardinality(Cand[y] \ used)
       IN UNION {{(c :> n) @@ f : f \in Choices(C \ {c}, Cand, used \cup {n})} : n \in Cand[c] \ used}

InstOf(rows, t) ==
  LET X == {x[3] : x \in {y \in rows : y[1] = t /\ y[2] = DbTxInstant /\ y[4]}}
  IN IF X = {} THEN Val("inst", 0, "-") ELSE CHOOSE x \in X : TRUE

\* Can all of them be stated again?
RECURSIVE Rebasable(_, _)
Rebasable(S, local) ==
  IF local = <<>> THEN TRUE
  ELSE LET terms == RebaseTerms(S, Head(local)) IN
  IF terms = {} THEN Rebasable(S, Tail(local))
  ELSE LET prep == Prepare(S, "builder", SeqOf(terms))
           C == prep.res.fresh
           out == Outcome(S, prep, Number(C, S.parts[2]), Val("inst", 0, "-"))
       IN /\ out.errs = {}
          /\ IF {x \in out.eff.add : x[1] # TxId(S)} \cup out.eff.ret = {} THEN Rebasable(S, Tail(local))
             ELSE Rebasable(DbOf(out.facts, <<S.parts[1], S.parts[2] + Cardinality(C), S.parts[3] + 1>>), Tail(local))

(* Follow the rebased transactions: S is the store so far, `local` the rows of the transactions to
   rebase, `log` what was observed.  The result is the reasons why what was observed cannot be.    *)
RECURSIVE Rebase(_, _, _, _)
Rebase(S, local, log, ends) ==
  IF local = <<>> THEN [errs |-> IF RowsAt(log, TxId(S)) = {} THEN {} ELSE {"more"}, S |-> S]
  ELSE
  LET terms == RebaseTerms(S, Head(local)) IN
  IF terms = {} THEN Rebase(S, Tail(local), log, ends)
  ELSE
  LET prep == Prepare(S, "builder", SeqOf(terms))
      seen == RowsAt(log, TxId(S))
      inst == InstOf(seen, TxId(S))
      C == prep.res.fresh
      free == S.parts[2]..(ends - 1)
      \* what changes apart from the time
      Real(out) == {x \in out.eff.add : x[1] # TxId(S)} \cup out.eff.ret
      Said(out) == {<<x[1], x[2], x[3], TRUE>> : x \in out.eff.add} \cup {<<x[1], x[2], x[3], FALSE>> : x \in out.eff.ret}
      some == Outcome(S, prep, Number(C, S.parts[2]), inst)
      \* what is asserted of a class is seen of its entity, unless something was known of that before
      Told(c) == {<<t.a.n, t.v.v>> : t \in {y \in terms : y.k = "add" /\ y.e.k = "val" /\ Tmp(y.e.v.s) \in c}}
      known == {y[1] : y \in S.facts}
      Cand == [c \in C |-> {n \in free : n \in known \/ \A q \in Told(c) : <<n, q[1], q[2], TRUE>> \in seen}]
      lucky == \E f \in Choices(C, Cand, {}) : Said(Outcome(S, prep, f, inst)) = seen
  IN IF some.errs # {} /\ ~(Cardinality(C) \in 1..5 /\ lucky) THEN [errs |-> some.errs, S |-> S]
     ELSE IF some.errs = {} /\ Real(some) = {} THEN Rebase(S, Tail(local), log, ends)
     ELSE IF Cardinality(C) > 5 \/ Cardinality(C) > Cardinality(free) THEN [errs |-> {"numbers"}, S |-> S]
     ELSE LET Fits == {f \in Choices(C, Cand, {}) : Said(Outcome(S, prep, f, inst)) = seen} IN
          IF Fits = {} THEN [errs |-> {"differs"}, S |-> S]
          ELSE LET f == CHOOSE g \in Fits : TRUE
                   out == Outcome(S, prep, f, inst)
                   n == SetMax({S.parts[2]} \cup {x + 1 : x \in Range(f)}, 0)
                   S1 == DbOf(out.facts, <<S.parts[1], n, S.parts[3] + 1>>)
               IN Rebase(S1, Tail(local), log, ends)
=============================================================================
