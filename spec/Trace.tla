------------------------------- MODULE Trace -------------------------------
(* Checks a recorded history, one event per line of the file $TRACE: TLC follows the history through
   the specification and reports every event at which the store and the specification disagree.    *)
EXTENDS Conform, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st

Init == i = 0 /\ st = Init0

Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ LET x == Step(st, Events[i + 1])
           IN /\ st' = x.st
              /\ IF x.labels = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, Events[i + 1].op.k, ToJson(x.labels)>>)
              /\ IF i + 1 = Len(Events) THEN PrintT(<<"DONE", i + 1, ToJson(x.st.cov)>>) ELSE TRUE

Spec == Init /\ [][Next]_<<i, st>>
View == i
=============================================================================
