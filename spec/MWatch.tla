------------------------------- MODULE MWatch -------------------------------
(* Observers.  An observer is registered under a key for a set of attributes.  When a transaction is
   committed, every observer is sent, once and in the order of commits, the transactions of that
   commit that changed some attribute it watches, each with all the attributes it changed.

   w.obs: key -> attributes watched; w.pend: what the open transaction has done so far;
   w.notes: key -> what the observer has been sent.                                               *)
EXTENDS MValues

NoWatch == [obs |-> [k \in {} |-> {}], pend |-> <<>>, notes |-> [k \in {} |-> <<>>]]

Register(w, key, as) ==
  [w EXCEPT !.obs = (key :> as) @@ @, !.notes = @ @@ (key :> <<>>)]
Unregister(w, key) == [w EXCEPT !.obs = [k \in DOMAIN w.obs \ {key} |-> w.obs[k]]]

Pend(w, tx, as) == [w EXCEPT !.pend = Append(@, <<tx, as>>)]
Forget(w, n) == [w EXCEPT !.pend = SubSeq(@, 1, n)]

\* What an observer of attributes `as` is sent of a commit.
Batch(w, as) == SelectSeq(w.pend, LAMBDA p : p[2] \cap as # {})
Deliver(w) ==
  [w EXCEPT !.pend = <<>>,
            !.notes = [k \in DOMAIN w.notes |->
                         IF k \in DOMAIN w.obs /\ Batch(w, w.obs[k]) # <<>> THEN Append(w.notes[k], Batch(w, w.obs[k]))
                         ELSE w.notes[k]]]

\* The notes recorded: <<key, <<batch, ...>>>> with batches <<<<tx, <<attribute, ...>>>>, ...>>.
BatchSet(b) == [i \in DOMAIN b |-> <<b[i][1], Set(b[i][2])>>]
NoteLabels(w, notes) ==
  LET got == [k \in {x[1] : x \in Set(notes)} |->
                LET x == (CHOOSE y \in Set(notes) : y[1] = k)[2] IN [i \in DOMAIN x |-> BatchSet(x[i])]]
      all == DOMAIN w.notes \cup DOMAIN got
      W(k) == IF k \in DOMAIN w.notes THEN w.notes[k] ELSE <<>>
      G(k) == IF k \in DOMAIN got THEN got[k] ELSE <<>>
  IN UNION {IF W(k) = G(k) THEN {}
            ELSE IF Len(G(k)) < Len(W(k)) THEN {"observer:missed"}
            ELSE IF Len(G(k)) > Len(W(k)) THEN {"observer:spurious"} ELSE {"observer:content"} : k \in all}
=============================================================================
