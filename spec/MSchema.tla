------------------------------ MODULE MSchema ------------------------------
(* The schema is a view of the facts: what is an attribute, which properties it has, and which
   keyword names which entity are all stated by facts.  This module derives that view and says which
   changes to it are permitted.                                                                   *)
EXTENDS MValues

MetaFacts(F) == {f \in F : f[2] \in MetaAttrs}

\* Keyword -> entid.
IdentsOf(F) ==
  LET M == {f \in F : f[2] = DbIdent}
  IN  [k \in {f[3].s : f \in M} |-> (CHOOSE f \in M : f[3].s = k)[1]]

DefaultAttr(vt) == [vt |-> vt, many |-> FALSE, uniq |-> "n", idx |-> FALSE, ft |-> FALSE, comp |-> FALSE, nh |-> FALSE]

\* Entid -> properties, for every entity that has a value type.
AttrsOf(F) ==
  LET M  == MetaFacts(F)
      Es == {f[1] : f \in {g \in M : g[2] = DbValueType}}
      Prop(e) ==
        LET P == {f \in M : f[1] = e}
            Has(a, v) == \E f \in P : f[2] = a /\ f[3] = v
            vts == {f[3].n : f \in {g \in P : g[2] = DbValueType}}
            vt == CHOOSE x \in vts : TRUE
        IN [vt   |-> IF vt \in DOMAIN TypeOfEnt THEN TypeOfEnt[vt] ELSE "bad",
            many |-> Has(DbCardinality, Ref(CardMany)),
            uniq |-> IF Has(DbUnique, Ref(UniqueValue)) THEN "v"
                     ELSE IF Has(DbUnique, Ref(UniqueIdentity)) THEN "i" ELSE "n",
            idx  |-> Has(DbIndex, True1),
            ft   |-> Has(DbFulltext, True1),
            comp |-> Has(DbIsComponent, True1),
            nh   |-> Has(DbNoHistory, True1)]
  IN [e \in Es |-> Prop(e)]

\* What makes the properties of an attribute consistent.
ValidAttr(p) ==
  /\ p.uniq # "n" => p.idx
  /\ p.ft => p.vt = "str" /\ p.idx
  /\ p.comp => p.vt = "ref"

ValidSchema(attrs) == \A e \in DOMAIN attrs : ValidAttr(attrs[e])

UniqueHolds(F, a) ==
  LET X == {f \in F : f[2] = a} IN \A f, g \in X : f[3] = g[3] => f[1] = g[1]
CardOneHolds(F, a) ==
  LET X == {f \in F : f[2] = a} IN \A f, g \in X : f[1] = g[1] => f[3] = g[3]

(* Judge a change of metadata: `A` and `R` are the <<e, a, v>> that were really added and removed,
   F and G the facts before and after.  The result is the set of reasons to refuse it.            *)
SchemaErrs(attrs, A, R, G) ==
  LET MA == {x \in A : x[2] \in SchemaAttrs}
      MR == {x \in R : x[2] \in SchemaAttrs}
      Es == {x[1] : x \in MA \cup MR}
      New == AttrsOf(G)
      Ea(X, e) == {x[2] : x \in {y \in X : y[1] = e}}
      \* an attribute that is given another value is altered, not retracted
      Gone(e) == Ea(MR, e) \ Ea(MA, e)
      IdentGone(e) == (\E x \in R : x[1] = e /\ x[2] = DbIdent) /\ ~(\E x \in A : x[1] = e /\ x[2] = DbIdent)
      Removed(e) == {DbValueType, DbCardinality} \subseteq Gone(e)
      BadValue == \E x \in MA :
                    \/ x[2] = DbValueType /\ x[3].n \notin DOMAIN TypeOfEnt
                    \/ x[2] = DbCardinality /\ x[3].n \notin {CardOne, CardMany}
                    \/ x[2] = DbUnique /\ x[3].n \notin {UniqueValue, UniqueIdentity}
      ErrE(e) ==
        IF Removed(e) THEN
          (IF IdentGone(e) THEN {} ELSE {"schema:ident-remains"})
          \cup (IF Ea(MA, e) # {} THEN {"schema:incomplete"} ELSE {})
        ELSE
          (IF Gone(e) \subseteq {DbUnique, DbIsComponent} THEN {} ELSE {"schema:partial-retraction"})
          \cup (IF Gone(e) # {} /\ e \notin DOMAIN attrs THEN {"schema:not-an-attribute"} ELSE {})
          \cup (IF e \notin DOMAIN attrs
                THEN (IF DbValueType \notin Ea(MA, e) THEN {"schema:no-type"} ELSE {})
                ELSE (IF {DbValueType, DbFulltext} \cap Ea(MA, e) # {} THEN {"schema:immutable"} ELSE {}))
          \cup (IF e \in DOMAIN New /\ ~ValidAttr(New[e]) THEN {"schema:invalid"} ELSE {})
          \cup (IF e \in DOMAIN New /\ e \in DOMAIN attrs /\ attrs[e].many /\ ~New[e].many /\ ~CardOneHolds(G, e)
                THEN {"schema:many-to-one"} ELSE {})
          \cup (IF e \in DOMAIN New /\ e \in DOMAIN attrs /\ New[e].uniq # "n" /\ attrs[e].uniq # New[e].uniq /\ ~UniqueHolds(G, e)
                THEN {"schema:not-unique"} ELSE {})
  IN IF BadValue THEN {"schema:value"} ELSE UNION {ErrE(e) : e \in Es}
=============================================================================
