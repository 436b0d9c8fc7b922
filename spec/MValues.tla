------------------------------ MODULE MValues ------------------------------
(* Values, facts and the fixed vocabulary of a Mentat store.

   Every value is a record [t, n, s]: its type, a number and a string.  Small numbers are held in n
   (doubles times ten), everything else is held, canonically rendered, in s.

   A fact is a tuple <<e, a, v, tx>>; a log entry is <<tx, e, a, v, added, timeline>>.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Val(t, n, s) == [t |-> t, n |-> n, s |-> s]
Ref(n)  == Val("ref", n, "")
Kw(s)   == Val("kw", 0, s)
True1   == Val("bool", 1, "")
False1  == Val("bool", 0, "")

Set(xs) == {xs[n] : n \in DOMAIN xs}
Range(f) == {f[x] : x \in DOMAIN f}
Max(a, b) == IF a > b THEN a ELSE b
SetMax(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x

\* The core vocabulary (entids fixed by the bootstrap transaction).
DbIdent == 1        DbTxInstant == 3     DbValueType == 7    DbCardinality == 8
DbUnique == 9       DbIsComponent == 10  DbIndex == 11       DbFulltext == 12
DbNoHistory == 13
CardOne == 33       CardMany == 34       UniqueValue == 35   UniqueIdentity == 36

\* Attributes whose facts define idents and attributes.
SchemaAttrs == {DbValueType, DbCardinality, DbUnique, DbIsComponent, DbIndex, DbFulltext, DbNoHistory}
MetaAttrs == SchemaAttrs \cup {DbIdent}

TypeOfEnt == (23 :> "ref") @@ (24 :> "kw") @@ (25 :> "long") @@ (26 :> "double") @@
             (27 :> "str") @@ (28 :> "uuid") @@ (30 :> "bool") @@ (31 :> "inst")

\* Partitions: <<db, user, tx>>.
PartStart == <<0, 65536, 268435456>>
Tx0 == 268435456

EAV(f) == <<f[1], f[2], f[3]>>
EAVs(F) == {EAV(f) : f \in F}
\* The values of an attribute of an entity.
ValuesOf(F, e, a) == {f[3] : f \in {g \in F : g[1] = e /\ g[2] = a}}
\* The entities that have a value of an attribute.
HoldersOf(F, a, v) == {f[1] : f \in {g \in F : g[2] = a /\ g[3] = v}}

Allocated(parts, e) == \E i \in 1..3 : e >= PartStart[i] /\ e < parts[i]
=============================================================================
